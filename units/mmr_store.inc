// ---- a store: nodes by position; any call may fail ----
pub type Nodes = spec_fn(nat) -> Option<MmrNode>;
pub type Rest = spec_fn(Seq<u8>) -> Option<Seq<u8>>;
pub type Ov = Seq<(u64, Vec<MmrNode>)>;
pub open spec fn covers(e: (u64, Vec<MmrNode>), p: nat) -> bool { e.0 <= p < e.0 + e.1@.len() }
pub trait MMRStoreReadOps {
    spec fn nodes(&self) -> Nodes;
    // what the store holds beside nodes
    spec fn other(&self) -> Rest;
    // what sort of store it is
    spec fn kind(&self) -> int;
    // whether reads never fail
    spec fn reliable(&self) -> bool;
    // positions below 2^63 (every position of a range of at most 2^62 leaves)
    fn element_at_position(&self, pos: u64) -> (r: Result<Option<MmrNode>>) requires pos < 0x8000_0000_0000_0000 ensures r matches Ok(x) ==> x == opt(self.nodes(), pos as nat), self.reliable() ==> r is Ok;
}
pub open spec fn opt(m: Nodes, p: nat) -> Option<MmrNode> { m(p) }
pub trait MMRStoreWriteOps: MMRStoreReadOps {
    // a failed append leaves every other position as it was
    fn append(&mut self, pos: u64, elems: Vec<MmrNode>) -> (r: Result<()>)
        requires entry_ok((pos, elems))
        ensures r is Ok ==> final(self).nodes() == laid(old(self).nodes(), (pos, elems)), forall|p: nat| !covers((pos, elems), p) ==> #[trigger] opt(final(self).nodes(), p) == opt(old(self).nodes(), p), final(self).other() == old(self).other(), final(self).kind() == old(self).kind();
}
pub open spec fn laid(m: Nodes, e: (u64, Vec<MmrNode>)) -> Nodes { |p: nat| if covers(e, p) { Some(e.1@[p - e.0]) } else { m(p) } }
// a run of sound nodes at positions below 2^63
pub open spec fn entry_ok(e: (u64, Vec<MmrNode>)) -> bool { e.0 + e.1@.len() <= 0x8000_0000_0000_0000 && all_sound(e.1@) }
pub open spec fn all_sound(v: Seq<MmrNode>) -> bool { forall|k: int| 0 <= k < v.len() ==> sound(#[trigger] v[k]) }
pub open spec fn sound(n: MmrNode) -> bool { match n.value { None => !n.is_data_leaf, Some(v) => !n.is_data_leaf ==> n.hash == leafh(v@) } }
// buffered entries come in order and apart
pub open spec fn mono(ov: Ov) -> bool { (forall|j: int| 0 <= j < ov.len() ==> entry_ok(#[trigger] ov[j])) && forall|i: int, j: int| 0 <= i < j < ov.len() ==> (#[trigger] ov[i]).0 + ov[i].1@.len() <= (#[trigger] ov[j]).0 }
pub open spec fn look(ov: Ov, st: Nodes, p: nat) -> Option<MmrNode> decreases ov.len() {
    if ov.len() == 0 { opt(st, p) } else if covers(ov.last(), p) { Some(ov.last().1@[p - ov.last().0]) } else { look(ov.drop_last(), st, p) }
}
pub proof fn mono_drop(ov: Ov) requires mono(ov), ov.len() > 0 ensures mono(ov.drop_last()) { }
pub proof fn look_below(ov: Ov, st: Nodes, p: nat) requires forall|j: int| 0 <= j < ov.len() ==> !covers(#[trigger] ov[j], p) ensures look(ov, st, p) == opt(st, p) decreases ov.len()
{ if ov.len() > 0 { assert(!covers(ov[ov.len() - 1], p)); let d = ov.drop_last(); assert forall|j: int| 0 <= j < d.len() implies !covers(#[trigger] d[j], p) by { assert(d[j] == ov[j]); } look_below(d, st, p); } }
pub proof fn look_push(ov: Ov, e: (u64, Vec<MmrNode>), st: Nodes) ensures forall|p: nat| #[trigger] look(ov.push(e), st, p) == (if covers(e, p) { Some(e.1@[p - e.0]) } else { look(ov, st, p) })
{ assert(ov.push(e).drop_last() =~= ov); }
// the first entries laid down in the store, the rest on top: nothing is seen to change
pub proof fn look_laid(ov: Ov, st: Nodes, k: int) requires 0 <= k < ov.len(), mono(ov) ensures forall|p: nat| #[trigger] look(ov, laid(st, ov[k]), p) == look(ov, st, p) decreases ov.len()
{
    assert forall|p: nat| #[trigger] look(ov, laid(st, ov[k]), p) == look(ov, st, p) by {
        if covers(ov.last(), p) { }
        else if k < ov.len() - 1 { mono_drop(ov); look_laid(ov.drop_last(), st, k); assert(ov.drop_last()[k] == ov[k]); let d = ov.drop_last(); assert(look(d, laid(st, d[k]), p) == look(d, st, p)); }
        else { look_same(ov.drop_last(), laid(st, ov[k]), st, p); }
    }
}
pub proof fn look_same(ov: Ov, a: Nodes, b: Nodes, p: nat) requires opt(a, p) == opt(b, p) ensures look(ov, a, p) == look(ov, b, p) decreases ov.len() { if ov.len() > 0 { look_same(ov.drop_last(), a, b, p); } }
pub proof fn look_hit(ov: Ov, st: Nodes, p: nat, k: int) requires mono(ov), 0 <= k < ov.len(), covers(ov[k], p) ensures look(ov, st, p) == Some(ov[k].1@[p - ov[k].0]) decreases ov.len()
{ if k < ov.len() - 1 { assert(ov[k].0 + ov[k].1@.len() <= ov[ov.len() - 1].0); mono_drop(ov); look_hit(ov.drop_last(), st, p, k); } }
//@ rules
let mut cost = OperationCost::default(); ==> 
.unwrap_add_cost(&mut cost) ==> 
.unwrap_add_cost(cost) ==> 
.wrap_with_cost($x..) ==> 
//@ end
//@ type grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch
//@ type grovedb-merkle-mountain-range/src/mmr.rs MMR
#[verifier::external_body] pub fn clone_at(v: &Vec<MmrNode>, i: usize) -> (r: Option<MmrNode>) ensures i < v@.len() ==> r == Some(v@[i as int]), i >= v@.len() ==> r is None { unimplemented!() }
#[verifier::external_body] pub fn clone_nodes(v: &Vec<MmrNode>) -> (r: Vec<MmrNode>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn take_entries(v: &mut Vec<(u64, Vec<MmrNode>)>) -> (r: Vec<(u64, Vec<MmrNode>)>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
impl<Store> MMRBatch<Store> {
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::new
  //@ ret r
  //@ spec
    ensures r.memory_batch@ == Ov::empty(), r.store == store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::with_overlay
  //@ ret r
  //@ spec
    ensures r.memory_batch == overlay, r.store == store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::take_overlay
  //@ ret r
  //@ rule std::mem::take($x..) ==> take_entries($x)
  //@ spec
    ensures r@ == old(self).memory_batch@, final(self).memory_batch@ == Ov::empty(), final(self).store == old(self).store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::append
  //@ rule debug_assert!($x..); ==> 
  //@ spec
    requires mono(old(self).memory_batch@.push((pos, elems)))
    ensures final(self).memory_batch@ == old(self).memory_batch@.push((pos, elems)), final(self).store == old(self).store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::store
  //@ ret r
  //@ spec
    ensures *r == self.store
//@ end
}
impl<Store: MMRStoreReadOps> MMRBatch<Store> {
    pub open spec fn seen(&self, p: nat) -> Option<MmrNode> { look(self.memory_batch@, self.store.nodes(), p) }
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::element_at_position
  //@ sig CostResult<Option<MmrNode>, Error> ==> Result<Option<MmrNode>>
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ attr #[verifier::allow_complex_invariants]
  //@ rule for (start_pos, elems) in self.memory_batch.iter().rev() { $b.. } ==> let mut bi: usize = self.memory_batch.len(); while bi > 0 { bi -= 1; let start_pos = &self.memory_batch[bi].0; let elems = &self.memory_batch[bi].1; $b }
  //@ rule pos < start_pos + ==> pos < *start_pos +
  //@ rule elems.get($i..).cloned() ==> clone_at(elems, ($i) as usize)
  //@ rule let loaded_bytes = $x..; ==> 
  //@ spec
    requires mono(self.memory_batch@), pos < 0x8000_0000_0000_0000
    ensures r matches Ok(x) ==> x == self.seen(pos as nat), self.store.reliable() ==> r is Ok
  //@ preloop 1
    proof { assert(self.memory_batch@.take(self.memory_batch@.len() as int) =~= self.memory_batch@); }
  //@ loop 1
    invariant_except_break look(self.memory_batch@.take(bi as int), self.store.nodes(), pos as nat) == self.seen(pos as nat),
    invariant bi <= self.memory_batch@.len(),
    ensures self.seen(pos as nat) == opt(self.store.nodes(), pos as nat)
    decreases bi
  //@ after bi -= 1;
    let ghost t = self.memory_batch@.take(bi + 1);
    proof {
        assert(t.drop_last() =~= self.memory_batch@.take(bi as int)); assert(t.last() == self.memory_batch@[bi as int]);
        if t.last().0 + t.last().1@.len() <= pos { assert forall|j: int| 0 <= j < t.len() implies !covers(#[trigger] t[j], pos as nat) by { assert(t[j] == self.memory_batch@[j]); } look_below(t, self.store.nodes(), pos as nat); }
    }
//@ end
}
impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
//@ fn grovedb-merkle-mountain-range/src/mmr_store.rs MMRBatch::commit
  //@ sig CostResult<(), Error> ==> Result<()>
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ rule for (pos, elems) in self.memory_batch.iter() { $b.. } ==> let mut ci: usize = 0; while ci < self.memory_batch.len() { let pos = &self.memory_batch[ci].0; let elems = &self.memory_batch[ci].1; $b ci += 1; }
  //@ rule elems.clone() ==> clone_nodes(elems)
  //@ spec
    requires mono(old(self).memory_batch@)
    ensures r is Ok ==> final(self).memory_batch@.len() == 0, r is Err ==> final(self).memory_batch@ == old(self).memory_batch@,
        // whatever happens, every position reads as before
        forall|p: nat| #[trigger] final(self).seen(p) == old(self).seen(p), final(self).store.other() == old(self).store.other(), final(self).store.kind() == old(self).store.kind()
  //@ at start
    let ghost ov = self.memory_batch@; let ghost s0 = self.store.nodes(); let ghost o0 = self.store.other(); let ghost k0 = self.store.kind();
  //@ loop 1
    invariant ci <= ov.len(), self.memory_batch@ == ov, self.store.other() == o0, self.store.kind() == k0, forall|p: nat| #[trigger] look(ov, self.store.nodes(), p) == look(ov, s0, p),
        forall|j: int, p: nat| 0 <= j < ci && #[trigger] covers(ov[j], p) ==> opt(self.store.nodes(), p) == Some(ov[j].1@[p - ov[j].0]),
    decreases ov.len() - ci
  //@ loopstart 1
    let ghost sk = self.store.nodes(); let ghost e = ov[ci as int];
  //@ before if let Err(e) = result
    proof {
        let sn = self.store.nodes();
        assert forall|p: nat| #[trigger] look(ov, sn, p) == look(ov, s0, p) by { if covers(e, p) { look_hit(ov, sn, p, ci as int); look_hit(ov, s0, p, ci as int); } else { look_same(ov, sn, sk, p); assert(look(ov, sk, p) == look(ov, s0, p)); } }
    }
  //@ before self.memory_batch.clear()
    proof {
        let sn = self.store.nodes();
        assert forall|p: nat| #[trigger] look(ov, s0, p) == opt(sn, p) by {
            assert(look(ov, sn, p) == look(ov, s0, p));
            if exists|j: int| 0 <= j < ov.len() && covers(#[trigger] ov[j], p) { let j = choose|j: int| 0 <= j < ov.len() && covers(#[trigger] ov[j], p); look_hit(ov, sn, p, j); } else { look_below(ov, sn, p); }
        }
    }
  //@ after self.memory_batch.clear();
    proof { assert(self.memory_batch@ =~= Ov::empty()); }
//@ end
}
// ---- the range: what the nodes are ----
// the hash at a position is that of its leaves, so later leaves do not matter
pub proof fn nv_same(a: Seq<H>, b: Seq<H>, i: int, h: nat) requires forall|j: int| i <= j < i + pow2(h) ==> #[trigger] a[j] == b[j] ensures nv(a, i, h) == nv(b, i, h) decreases h
{
    if h > 0 { let g = (h - 1) as nat; lemma_pow2_unfold(h); lemma_pow2_pos(g); nv_same(a, b, i, g); nv_same(a, b, i + pow2(g), g); } else { lemma2_to64(); assert(a[i] == b[i]); }
}
pub proof fn val_push(a: Seq<H>, x: H, p: nat) requires p < msize(a.len()) ensures val(a.push(x), p) == val(a, p)
{
    node_some(p); let (i, h) = node(p); assert(isnode(p, i, h)); let n = a.len();
    if i >= n { if i > n { lemma_msize_mono(n, i); } }
    lemma_tz_odd_le(i, h); nv_same(a.push(x), a, i + 1 - pow2(h), h);
}
pub proof fn lemma_tz_odd_le(i: nat, h: nat) requires h <= tz((i + 1) as nat) ensures pow2(h) <= i + 1
{ let q = lemma_tz_odd((i + 1) as nat); let t = tz((i + 1) as nat); if h < t { lemma_pow2_strictly_increases(h, t); } assert(pow2(t) * q >= pow2(t)) by (nonlinear_arith) requires q >= 1; }
// bit k of n, when the k bits below are ones
pub proof fn lemma_bit(n: u64, p: u64, k: nat) requires k <= 63, p == pow2(k), k <= tz((n + 1) as nat) ensures (n & p) != 0 <==> k < tz((n + 1) as nat)
{
    let t = tz((n + 1) as nat); let q = lemma_tz_odd((n + 1) as nat); lemma_pow2_adds(k, (t - k) as nat); let c = pow2((t - k) as nat); let b = pow2(k); let m = c * q; lemma_pow2_pos(k);
    assert(n + 1 == b * m) by (nonlinear_arith) requires n + 1 == (b * c) * q, m == c * q;
    assert(m >= 1) by (nonlinear_arith) requires n + 1 == b * m, n >= 0, b > 0;
    assert(n as int == b * (m - 1) + (b - 1)) by (nonlinear_arith) requires n + 1 == b * m;
    lemma_fundamental_div_mod_converse(n as int, b as int, m - 1, b - 1);
    lemma2_to64(); if k < 63 { lemma_pow2_strictly_increases(k, 63); } lemma_pow2_unfold(64);
    vstd::bits::lemma_u64_shl_is_mul(1, k as u64); vstd::bits::lemma_u64_shr_is_div(n, k as u64);
    let kk = k as u64; assert(p == 1u64 << kk);
    assert((n & p) != 0 <==> (n >> kk) % 2 == 1) by (bit_vector) requires p == 1u64 << kk, kk < 64;
    if k < t { lemma_pow2_unfold((t - k) as nat); let d = pow2((t - k - 1) as nat); assert(m == 2 * (d * q)) by (nonlinear_arith) requires m == c * q, c == 2 * d; } else { assert(m == q) by (nonlinear_arith) requires m == c * q, c == 1; }
}
pub open spec fn same_leaf(m: Option<MmrNode>, x: MmrNode) -> bool { m == Some(x) }
pub open spec fn shows<S: MMRStoreReadOps>(b: &MMRBatch<S>, l: Seq<MmrNode>) -> bool {
    &&& forall|p: nat| p < msize(l.len()) ==> (#[trigger] b.seen(p)) is Some && b.seen(p)->0.hash == val(hs(l), p)
    &&& forall|i: nat| i < l.len() ==> same_leaf(b.seen(#[trigger] msize(i)), l[i as int])
}
pub open spec fn before(ov: Ov, p: nat) -> bool { forall|j: int| 0 <= j < ov.len() ==> (#[trigger] ov[j]).0 + ov[j].1@.len() <= p }
pub proof fn of_unique<S: MMRStoreReadOps>(m: &MMR<S>, a: Seq<MmrNode>, b: Seq<MmrNode>) requires m.of(a), m.of(b) ensures a == b
{
    lemma_msize_inj(a.len(), b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { let j = i as nat; assert(same_leaf(m.batch.seen(msize(j)), a[i])); assert(same_leaf(m.batch.seen(msize(j)), b[i])); }
    assert(a =~= b);
}
pub proof fn lemma_cap(n: nat) requires n <= 0x4000_0000_0000_0000 ensures msize(n) < 0x8000_0000_0000_0000
{ lemma2_to64(); lemma_pow2_unfold(64); lemma_pow2_unfold(63); lemma_pow2_pos(62); lemma_msize_add(62, 0); assert(msize(0) == 0); if n < 0x4000_0000_0000_0000 { lemma_msize_mono(n, 0x4000_0000_0000_0000); } }
// within 2^62 leaves every node position is below 2^63
pub proof fn room(n: nat) requires n < 0x4000_0000_0000_0000 ensures msize((n + 1) as nat) < 0x8000_0000_0000_0000, msize((n + 1) as nat) == msize(n) + 1 + tz((n + 1) as nat), tz((n + 1) as nat) <= 63
{
    lemma_cap((n + 1) as nat); lemma2_to64(); lemma_pow2_unfold(64);
    lemma_tz_odd_le(n, tz((n + 1) as nat)); if tz((n + 1) as nat) > 63 { lemma_pow2_strictly_increases(63, tz((n + 1) as nat)); }
}
// the nodes made by an earlier push lie below the later ones
pub proof fn lemma_msize_next(i: nat, n: nat, h: nat) requires i < n, h <= tz((i + 1) as nat) ensures msize(i) + h < msize(n)
{ assert(msize((i + 1) as nat) == msize(i) + 1 + tz((i + 1) as nat)); if i + 1 < n { lemma_msize_mono((i + 1) as nat, n); } }
pub proof fn lemma_peak_room(n: nat) requires msize(n) <= u64::MAX ensures n < pow2(64), forall|j: int| 0 <= j < peaks_from(0, n, 64).len() ==> #[trigger] peaks_from(0, n, 64)[j] < msize(n)
{ lemma2_to64(); lemma_msize_top(n); peaks_below(0, n, 64); }
pub proof fn peaks_some(base: nat, r: nat, k: nat) requires 0 < r < pow2(k) ensures peaks_from(base, r, k).len() > 0 decreases k
{ lemma2_to64(); if k > 0 { lemma_pow2_unfold(k); if r < pow2((k - 1) as nat) { peaks_some(base, r, (k - 1) as nat); } } }
impl<S> MMR<S> {
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::new
  //@ ret r
  //@ spec
    ensures r.mmr_size == mmr_size, r.batch.memory_batch@ == Ov::empty(), r.batch.store == store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::new_with_overlay
  //@ ret r
  //@ spec
    ensures r.mmr_size == mmr_size, r.batch.memory_batch == overlay, r.batch.store == store
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::is_empty
  //@ ret r
  //@ spec
    ensures r == (self.mmr_size == 0)
//@ end
}
impl<S: MMRStoreReadOps> MMR<S> {
    // this range is of these leaves
    pub open spec fn of(&self, l: Seq<MmrNode>) -> bool { self.mmr_size as nat == msize(l.len()) && l.len() <= 0x4000_0000_0000_0000 && mono(self.batch.memory_batch@) && before(self.batch.memory_batch@, self.mmr_size as nat) && shows(&self.batch, l) }
    pub proof fn of_cap(&self, l: Seq<MmrNode>) requires self.of(l) ensures self.mmr_size < 0x8000_0000_0000_0000 { lemma_cap(l.len()); }
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::find_element_at_position
  //@ sig CostResult<Cow<'b, MmrNode>, Error> ==> Result<MmrNode>
  //@ ret r
  //@ sig &'b [MmrNode] ==> &'b Vec<MmrNode>
  //@ rule if let Some(elem) = pos_offset.and_then(|i| hashes.get(i as usize)) { $b.. } ==> if let Some(i) = pos_offset { if let Some(elem) = get_node(hashes, i as usize) { $b } }
  //@ rule Cow::Borrowed(elem) ==> clone_node(elem)
  //@ rule Cow::Owned(e) ==> e
  //@ spec
    requires mono(self.batch.memory_batch@), pos < 0x8000_0000_0000_0000
    ensures r matches Ok(x) ==> (if self.mmr_size <= pos && pos - self.mmr_size < hashes@.len() { x == hashes@[pos - self.mmr_size] } else { self.batch.seen(pos as nat) == Some(x) }), self.batch.store.reliable() && (self.mmr_size <= pos && pos - self.mmr_size < hashes@.len() || self.batch.seen(pos as nat) is Some) ==> r is Ok
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::push
  //@ sig CostResult<u64, Error> ==> Result<u64>
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ rule elems.last().expect("checked") ==> last_of(&elems)
  //@ spec
    requires exists|l: Seq<MmrNode>| #[trigger] old(self).of(l) && l.len() < 0x4000_0000_0000_0000, sound(elem)
    ensures final(self).batch.store == old(self).batch.store, r is Ok ==> final(self).batch.memory_batch@.drop_last() == old(self).batch.memory_batch@ && final(self).batch.memory_batch@.len() > 0,
      forall|l: Seq<MmrNode>| #[trigger] old(self).of(l) ==> match r { Ok(p) => p == old(self).mmr_size && final(self).of(l.push(elem)), Err(_) => *final(self) == *old(self) && !old(self).batch.store.reliable() }
  //@ at start
    let ghost l = choose|l: Seq<MmrNode>| #[trigger] self.of(l) && l.len() < 0x4000_0000_0000_0000; let ghost n = l.len(); let ghost ls = hs(l).push(elem.hash); let ghost mut k: nat = 0; let ghost s0 = *self; let ghost top = tz((n + 1) as nat);
    proof {
        assert forall|m: Seq<MmrNode>| #[trigger] self.of(m) implies m == l by { of_unique(self, l, m); }
        assert(isnode(msize(n), n, 0)); room(n); lemma2_to64(); node_is(msize(n), n, 0); assert(val(ls, msize(n)) == ls[n as int]);
    }
  //@ loop 1
    invariant *self == s0, k <= top, top <= 63, peak as nat == pow2(k), pos as nat == msize(n) + k, elems@.len() == k + 1, elems@[0] == elem, all_sound(elems@), forall|j: int| 0 <= j <= k ==> (#[trigger] elems@[j]).hash == val(ls, (msize(n) + j) as nat),
    decreases top - k
  //@ loopstart 1
    proof {
        lemma_bit(n as u64, peak, k); assert(k < top);
        lemma2_to64(); lemma_pow2_unfold((k + 1) as nat); if k + 1 < 63 { lemma_pow2_strictly_increases((k + 1) as nat, 63); } lemma_pow2_unfold(64);
        assert(peak << 1u64 == 2 * peak) by (bit_vector) requires peak <= 0x4000_0000_0000_0000;
        let p = (msize(n) + k) as nat; assert(isnode(p, n, k)); lemma_right(p, n, k); let s = (p - (pow2(k + 1) - 1)) as nat;
        let i = (n - pow2(k)) as nat; lemma_pow2_pos(k); assert(isnode(s, i, k)); lemma_msize_mono(i, n); lemma_msize_next(i, n, k);
        val_push(hs(l), elem.hash, s); assert(elems@[k as int].hash == val(ls, p));
        lemma_bit(n as u64, peak, k);
    }
  //@ loopend 1
    proof { k = k + 1; }
  //@ postloop 1
    proof { lemma_bit(n as u64, peak, k); assert(k == top); assert(msize((n + 1) as nat) == msize(n) + 1 + top); }
    let ghost run = elems@; let ghost ov = self.batch.memory_batch@; let ghost st = self.batch.store.nodes(); let ghost e = (elem_pos, elems);
  //@ after self.mmr_size = pos + 1;
    proof {
        look_push(ov, e, st); let l2 = l.push(elem); assert(hs(l2) =~= ls);
        assert forall|p: nat| p < msize(l2.len()) implies (#[trigger] self.batch.seen(p)) is Some && self.batch.seen(p)->0.hash == val(hs(l2), p) by { if covers(e, p) { assert(run[p - msize(n)].hash == val(ls, (msize(n) + (p - msize(n))) as nat)); } else { assert(s0.batch.seen(p) is Some); val_push(hs(l), elem.hash, p); } }
        assert forall|i: nat| i < l2.len() implies same_leaf(self.batch.seen(#[trigger] msize(i)), l2[i as int]) by { if i < n { lemma_msize_mono(i, n); assert(same_leaf(s0.batch.seen(msize(i)), l[i as int])); } else { assert(covers(e, msize(n))); } }
        assert(self.of(l2));
    }
//@ end
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::get_root
  //@ sig CostResult<MmrNode, Error> ==> Result<MmrNode>
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ attr #[verifier::allow_complex_invariants]
  //@ rule let peaks_result: Result<Vec<MmrNode>> = get_peaks(self.mmr_size).into_iter().map(|peak_pos| { $b.. elem.and_then(|e| e.ok_or(err())) }).collect(); ==> let pks = get_peaks(self.mmr_size); let mut got: Vec<MmrNode> = Vec::new(); let mut failed: Option<Error> = None; let mut pi: usize = 0; while pi < pks.len() { let peak_pos = pks[pi]; pi += 1; $b match elem { Ok(Some(e)) => { got.push(e); } Ok(None) => { failed = Some(err()); break; } Err(e) => { failed = Some(e); break; } } } let peaks_result: Result<Vec<MmrNode>> = match failed { Some(e) => Err(e), None => Ok(got) };
  //@ spec
    requires exists|l: Seq<MmrNode>| #[trigger] self.of(l)
    // the root of the leaves; an error only from the store
    ensures forall|l: Seq<MmrNode>| #[trigger] self.of(l) ==> (match r { Ok(x) => l.len() > 0 && x.hash == mroot(l.len(), hs(l)), Err(_) => l.len() == 0 || !self.batch.store.reliable() })
  //@ at start
    let ghost l = choose|l: Seq<MmrNode>| #[trigger] self.of(l); let ghost n = l.len(); let ghost pks0 = peaks_from(0, n, 64);
    proof {
        assert forall|m: Seq<MmrNode>| #[trigger] self.of(m) implies m == l by { of_unique(self, l, m); }
        assert(msize(0) == 0); if n == 0 { } else { lemma_msize_mono(0, n); }
        lemma_msize_top(n); lemma_peak_room(n); assert(isnode(msize(n), n, 0));
        if self.mmr_size == 1 {
            assert(isnode(1, 1, 0)) by { assert(tz(1) == 0); assert(msize(1) == msize(0) + 1 + tz(1)); } node_unique(1, n, 0, 1, 0);
            lemma2_to64(); lemma_peaks_k(0, 1, 1, 64); lemma_peaks_zero(1, 0); assert(peaks_from(0, 1, 1) =~= seq![0u64]); assert(peak_vals(1, hs(l)) =~= seq![val(hs(l), 0)]);
            assert(self.batch.seen(0) is Some); assert(n == 1); assert(bag(peak_vals(1, hs(l))) == val(hs(l), 0)); assert(mroot(n, hs(l)) == val(hs(l), 0));
        }
    }
  //@ loop 1
    invariant_except_break failed is None, got@.len() == pi, forall|j: int| 0 <= j < pi ==> (#[trigger] got@[j]).hash == val(hs(l), pks0[j] as nat),
    invariant pi <= pks@.len(),
    ensures failed is None ==> hs(got@) =~= peak_vals(n, hs(l)), failed is Some ==> !self.batch.store.reliable()
    decreases pks@.len() - pi
  //@ after pi += 1;
    proof { assert(pks0[pi - 1] < msize(n)); self.of_cap(l); assert(self.batch.seen(peak_pos as nat) is Some); }
  //@ before match bag_peaks(peaks)
    proof { assert(n > 0); assert(hs(peaks@) == peak_vals(n, hs(l))); peaks_some(0, n, 64); assert(hs(peaks@).len() > 0); }
//@ end
}
pub fn get_node(v: &Vec<MmrNode>, i: usize) -> (r: Option<&MmrNode>) ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r is None { if i < v.len() { Some(&v[i]) } else { None } }
pub fn last_of(v: &Vec<MmrNode>) -> (r: &MmrNode) requires v@.len() > 0 ensures *r == v@.last() { &v[v.len() - 1] }
impl<S: MMRStoreWriteOps> MMR<S> {
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::commit
  //@ sig CostResult<(), Error> ==> Result<()>
  //@ ret r
  //@ spec
    requires mono(old(self).batch.memory_batch@)
    // committed or not, the range is of the same leaves; once committed, by the store alone
    ensures final(self).batch.store.other() == old(self).batch.store.other(), final(self).batch.store.kind() == old(self).batch.store.kind(), r is Err ==> final(self).batch.memory_batch@ == old(self).batch.memory_batch@, final(self).mmr_size == old(self).mmr_size, forall|l: Seq<MmrNode>| #[trigger] old(self).of(l) ==> final(self).of(l), r is Ok ==> final(self).batch.memory_batch@.len() == 0
  //@ rule1 self.batch.commit() ==> let r = self.batch.commit(); r
  //@ at start
    let ghost s0 = *self;
  //@ after let r = self.batch.commit();
    proof { assert forall|l: Seq<MmrNode>| #[trigger] s0.of(l) implies self.of(l) by { assert(shows(&s0.batch, l)); assert forall|i: nat| i < l.len() implies same_leaf(self.batch.seen(#[trigger] msize(i)), l[i as int]) by { assert(same_leaf(s0.batch.seen(msize(i)), l[i as int])); } assert forall|p: nat| p < msize(l.len()) implies (#[trigger] self.batch.seen(p)) is Some && self.batch.seen(p)->0.hash == val(hs(l), p) by { assert(s0.batch.seen(p) is Some); } } }
//@ end
}
// an empty range, and a range read back from its store
pub proof fn fresh<S: MMRStoreReadOps>(m: &MMR<S>) requires m.mmr_size == 0, m.batch.memory_batch@.len() == 0 ensures m.of(Seq::empty())
{ assert(msize(0) == 0); }
// ---- stored form of a node: a kind byte, the hash, and for a leaf the length and the value ----
// trusted: big-endian 32-bit integers
pub uninterp spec fn be4(x: nat) -> Seq<u8>;
pub uninterp spec fn un4(s: Seq<u8>) -> nat;
pub axiom fn be4_ok(x: nat) requires x <= u32::MAX ensures be4(x).len() == 4, un4(be4(x)) == x;
pub axiom fn un4_ok(s: Seq<u8>) requires s.len() == 4 ensures un4(s) <= u32::MAX, be4(un4(s)) == s;
#[verifier::external_body] pub fn be32(x: u32) -> (r: [u8; 4]) ensures r@ == be4(x as nat) { x.to_be_bytes() }
#[verifier::external_body] pub fn from32(b: &[u8]) -> (r: u32) requires b@.len() == 4 ensures r as nat == un4(b@) { unimplemented!() }
#[verifier::external_body] pub fn part(b: &[u8], s: usize, e: usize) -> (r: &[u8]) requires s <= e, e <= b@.len() ensures r@ == b@.subrange(s as int, e as int) { &b[s..e] }
#[verifier::external_body] pub fn arr32(b: &[u8]) -> (r: H) requires b@.len() == 32 ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn vec_of(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
#[verifier::external_body] pub fn extend(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b) }
pub open spec fn stored(n: MmrNode) -> Seq<u8> { match n.value { None => seq![0u8] + n.hash@, Some(v) => seq![if n.is_data_leaf { 2u8 } else { 1u8 }] + n.hash@ + be4(v@.len()) + v@ } }
// the nodes there are: an internal one, a leaf that hashes to what it says, or data with a hash of its own
pub open spec fn proper(n: MmrNode) -> bool { match n.value { None => !n.is_data_leaf, Some(v) => v@.len() <= u32::MAX && (!n.is_data_leaf ==> n.hash == leafh(v@)) } }
pub open spec fn alike(a: MmrNode, b: MmrNode) -> bool { a.hash == b.hash && a.is_data_leaf == b.is_data_leaf && match a.value { None => b.value is None, Some(v) => b.value matches Some(w) && v@ == w@ } }
pub open spec fn pieces(n: MmrNode, x: Seq<u8>) -> bool {
    x.len() >= 33 && x.subrange(1, 33) == n.hash@ && match n.value { None => x.len() == 33 && x[0] == 0, Some(v) => x.len() == 37 + v@.len() && x[0] == (if n.is_data_leaf { 2u8 } else { 1u8 }) && x.subrange(33, 37) == be4(v@.len()) && un4(x.subrange(33, 37)) == v@.len() && x.subrange(37, x.len() as int) == v@ }
}
pub proof fn lemma_pieces(n: MmrNode) requires proper(n) ensures pieces(n, stored(n))
{
    let x = stored(n);
    if n.value is Some { let v = n.value->0; be4_ok(v@.len()); assert(x.subrange(33, 37) =~= be4(v@.len())); assert(x.subrange(37, x.len() as int) =~= v@); }
    assert(x.subrange(1, 33) =~= n.hash@);
}
pub proof fn lemma_built(n: MmrNode, x: Seq<u8>) requires pieces(n, x) ensures stored(n) == x
{ if n.value is Some { assert(x.subrange(33, 37).len() == 4); } assert(stored(n) =~= x) by { assert forall|i: int| 0 <= i < x.len() implies stored(n)[i] == x[i] by { if 1 <= i < 33 { assert(x.subrange(1, 33)[i - 1] == x[i]); } else if 33 <= i < 37 { assert(x.subrange(33, 37)[i - 33] == x[i]); } else if i >= 37 { assert(x.subrange(37, x.len() as int)[i - 37] == x[i]); } } } }
pub proof fn stored_inj(a: MmrNode, b: MmrNode) requires proper(a), proper(b), stored(a) == stored(b) ensures alike(a, b)
{ lemma_pieces(a); lemma_pieces(b); assert(a.hash =~= b.hash); }
impl MmrNode {
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::serialized_size
  //@ ret r
  //@ spec
    requires self.value matches Some(v) ==> v@.len() <= u32::MAX
    ensures r == stored(*self).len()
  //@ at start
    proof { if self.value is Some { be4_ok((self.value->0)@.len()); } }
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::serialize
  //@ ret r
  //@ rule Error::InvalidData($x..) ==> err()
  //@ rule buf.extend_from_slice($x..) ==> extend(&mut buf, $x)
  //@ rule &(val.len() as u32).to_be_bytes() ==> &be32(val.len() as u32)
  //@ rule u32::MAX as usize ==> 0xffff_ffffusize
  //@ rule Vec::with_capacity($x..) ==> Vec::new()
  //@ spec
    ensures r is Ok <==> !(self.value matches Some(v) && v@.len() > u32::MAX), r matches Ok(b) ==> b@ == stored(*self)
  //@ before #all Ok(buf)
    proof { assert(buf@ =~= stored(*self)); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::deserialize
  //@ ret r
  //@ rule Error::InvalidData($x..) ==> err()
  //@ rule data[1..33].try_into().map_err($x..)? ==> arr32(part(data, 1, 33))
  //@ rule u32::from_be_bytes(data[33..37].try_into().map_err($x..)?,) ==> from32(part(data, 33, 37))
  //@ rule data[37..$e..].to_vec() ==> vec_of(part(data, 37, $e))
  //@ rule hash != expected_hash ==> !same32(&hash, &expected_hash)
  //@ spec
    ensures r matches Ok(n) ==> proper(n) && stored(n) == data@,
        r is Err ==> forall|n: MmrNode| #[trigger] proper(n) ==> stored(n) != data@
  //@ at start
    let ghost d = data@;
    proof { assert forall|n: MmrNode| proper(n) && #[trigger] stored(n) == d implies pieces(n, d) by { lemma_pieces(n); } }
  //@ before #1 Ok(MmrNode
    proof { assert(hash@ == d.subrange(1, 33)); assert forall|n: MmrNode| pieces(n, d) && n.value is None implies #[trigger] stored(n) == d by { lemma_built(n, d); } }
  //@ after let val_len = from32(part(data, 33, 37)) as usize;
    proof { un4_ok(d.subrange(33, 37)); }
  //@ after let value = vec_of(part(data, 37, 37 + val_len));
    proof { assert forall|n: MmrNode| #[trigger] pieces(n, d) implies stored(n) == d by { lemma_built(n, d); } 
        assert forall|n: MmrNode| proper(n) && #[trigger] stored(n) == d && n.value is Some implies n.hash == hash && n.value->0@ == value@ by { assert(pieces(n, d)); assert(n.hash =~= hash); } }
//@ end
}
