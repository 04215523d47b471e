//@ rules
let result = self.ctx.get(key); let cost = result.cost; match result.value { $b.. } ==> let result = self.ctx.get(key); match result { $b }
cost += result.cost; if let Err(e) = result.value ==> if let Err(e) = result
crate::Error::StoreError($x..) ==> err()
MmrNode::deserialize(&bytes).map_err($x..) ==> MmrNode::deserialize(bytes.as_slice())
crate::Error::InvalidInput($x..) ==> err()
for (i, elem) in elems.into_iter().enumerate() { $b.. } ==> let mut i: usize = 0; while i < elems.len() { let elem = &elems[i]; $b i += 1; }
&tagged.to_be_bytes() ==> &be32(tagged)
tagged.to_be_bytes() ==> be64(tagged)
bytes[..4].copy_from_slice($x..) ==> set4(&mut bytes, $x)
&self.bytes[..self.len] ==> part(self.bytes.as_slice(), 0, self.len)
//@ end
// a vector is its contents
pub axiom fn axiom_vec() ensures forall|a: Vec<u8>, b: Vec<u8>| #[trigger] a@ == #[trigger] b@ ==> a == b;
// trusted: big-endian 64-bit integers
pub uninterp spec fn be8(x: nat) -> Seq<u8>;
pub axiom fn be8_ok(x: nat, y: nat) requires x <= u64::MAX, y <= u64::MAX ensures be8(x).len() == 8, be8(x) == be8(y) ==> x == y;
#[verifier::external_body] pub fn be64(x: u64) -> (r: [u8; 8]) ensures r@ == be8(x as nat) { x.to_be_bytes() }
#[verifier::external_body] pub fn set4(d: &mut [u8; 8], s: &[u8; 4]) ensures final(d)@.subrange(0, 4) == s@ { d[..4].copy_from_slice(s) }
//@ type grovedb-merkle-mountain-range/src/helper.rs MmrKeySize
//@ attr #[derive(Clone, Copy)]
//@ rule #[default] ==> 
//@ end
//@ type grovedb-merkle-mountain-range/src/helper.rs MmrKey
//@ const grovedb-merkle-mountain-range/src/helper.rs MAX_U32_MMR_POSITION
pub open spec fn kv(k: MmrKey) -> Seq<u8> { k.bytes@.subrange(0, k.len as int) }
// the key of a position, and the positions with keys of their own
pub open spec fn keyof(p: u64, s: MmrKeySize) -> Seq<u8> { match s { MmrKeySize::U32 => be4(((p as u32) | 0x8000_0000u32) as nat), MmrKeySize::U64 => be8((p | 0x8000_0000_0000_0000u64) as nat) } }
pub open spec fn fits(p: nat, s: MmrKeySize) -> bool { p < (match s { MmrKeySize::U32 => 0x8000_0000nat, MmrKeySize::U64 => 0x8000_0000_0000_0000nat }) }
pub proof fn keys_apart(p: u64, q: u64, s: MmrKeySize)
    requires fits(p as nat, s), fits(q as nat, s) ensures keyof(p, s) == keyof(q, s) ==> p == q, keyof(p, s).len() == 4 || keyof(p, s).len() == 8
{
    match s {
        MmrKeySize::U32 => { let a = (p as u32) | 0x8000_0000u32; let b = (q as u32) | 0x8000_0000u32; be4_ok(a as nat); be4_ok(b as nat);
            let x = p as u32; let y = q as u32; assert(a == b ==> x == y) by (bit_vector) requires a == x | 0x8000_0000u32, b == y | 0x8000_0000u32, x < 0x8000_0000u32, y < 0x8000_0000u32; }
        MmrKeySize::U64 => { let a = p | 0x8000_0000_0000_0000u64; let b = q | 0x8000_0000_0000_0000u64; be8_ok(a as nat, b as nat);
            assert(a == b ==> p == q) by (bit_vector) requires a == p | 0x8000_0000_0000_0000u64, b == q | 0x8000_0000_0000_0000u64, p < 0x8000_0000_0000_0000u64, q < 0x8000_0000_0000_0000u64; }
    }
}
impl MmrKey {
//@ fn grovedb-merkle-mountain-range/src/helper.rs AsRef<[u8]> for MmrKey::as_ref
//@ ret r
//@ spec
  requires self.len <= 8
  ensures r@ == kv(*self)
//@ end
}
//@ fn grovedb-merkle-mountain-range/src/helper.rs mmr_node_key_sized
//@ sig crate::Result ==> Result
//@ ret r
//@ spec
  ensures r is Ok <==> (key_size is U64 || pos < 0x8000_0000), r matches Ok(k) ==> k.len <= 8 && kv(k) == keyof(pos, key_size)
//@ at start
  proof { assert(1u64 << 31 == 0x8000_0000u64) by (bit_vector); be4_ok(((pos as u32) | 0x8000_0000u32) as nat); let y = pos | 0x8000_0000_0000_0000u64; be8_ok(y as nat, y as nat); }
//@ before #2 Ok(MmrKey
  proof { let b = be8((pos | 0x8000_0000_0000_0000u64) as nat); assert(b.subrange(0, 8) =~= b); }
//@ end
// trusted: a storage context is a map; any call may fail, and a failed write touches no other key
impl Ctx {
    #[verifier::external_body] pub fn get(&self, k: MmrKey) -> (r: Result<Option<Vec<u8>>>)
        requires k.len <= 8 ensures r matches Ok(x) ==> ent(self@, kv(k)) == (match x { None => None, Some(v) => Some(v@) }) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: MmrKey, v: &Vec<u8>, a: Option<()>, b: Option<()>) -> (r: Result<()>)
        requires k.len <= 8 ensures r is Ok ==> ent(final(self)@, kv(k)) == Some(v@), forall|o: Seq<u8>| o != kv(k) ==> #[trigger] ent(final(self)@, o) == ent(old(self)@, o) { unimplemented!() }
}
//@ type grovedb-merkle-mountain-range/src/storage_adapter.rs MmrStore
//@ rule MmrStore<'a, C> ==> MmrStore
//@ rule &'a C ==> Ctx
//@ end
// the node a stored value is
pub open spec fn parsed(b: Seq<u8>) -> Option<MmrNode> { if exists|n: MmrNode| proper(n) && #[trigger] stored(n) == b { Some(choose|n: MmrNode| proper(n) && #[trigger] stored(n) == b) } else { None } }
pub proof fn parsed_is(n: MmrNode) requires proper(n) ensures parsed(stored(n)) == Some(n)
{
    axiom_vec(); let m = choose|m: MmrNode| proper(m) && #[trigger] stored(m) == stored(n); stored_inj(m, n);
    if n.value is Some { assert(m.value->0@ == n.value->0@); assert(m.value->0 == n.value->0); }
    assert(m == n);
}
// the keys of a dense tree in the same context
pub open spec fn rest(m: Map<Seq<u8>, Seq<u8>>) -> Rest { |k: Seq<u8>| if k.len() == 2 { ent(m, k) } else { None } }
pub open spec fn held(st: &MmrStore, p: nat) -> Option<MmrNode> {
    if fits(p, st.key_size) { match ent(st.ctx@, keyof(p as u64, st.key_size)) { None => None, Some(b) => parsed(b) } } else { None }
}
impl MmrStore {
//@ fn grovedb-merkle-mountain-range/src/storage_adapter.rs MmrStore::new
//@ sig &'a C ==> Ctx
//@ ret r
//@ spec
  ensures r.ctx == ctx, r.key_size is U64
//@ end
//@ fn grovedb-merkle-mountain-range/src/storage_adapter.rs MmrStore::with_key_size
//@ sig &'a C ==> Ctx
//@ ret r
//@ spec
  ensures r.ctx == ctx, r.key_size == key_size
//@ end
}
// the contract every proof over a node store assumes
impl MMRStoreReadOps for MmrStore {
    open spec fn nodes(&self) -> Nodes { |p: nat| held(self, p) }
    open spec fn other(&self) -> Rest { rest(self.ctx@) }
    open spec fn kind(&self) -> int { match self.key_size { MmrKeySize::U64 => 64, MmrKeySize::U32 => 32 } }
    // any call may fail
    open spec fn reliable(&self) -> bool { false }
//@ fn grovedb-merkle-mountain-range/src/storage_adapter.rs MMRStoreReadOps for MmrStore::element_at_position
//@ vis none
//@ sig CostResult<Option<MmrNode>, crate::Error> ==> Result<Option<MmrNode>>
//@ ret r
//@ rule1 Ok(n) => Ok(Some(n)) ==> Ok(n) => { proof { parsed_is(n); } Ok(Some(n)) }
//@ end
}
impl MMRStoreWriteOps for MmrStore {
//@ fn grovedb-merkle-mountain-range/src/storage_adapter.rs MMRStoreWriteOps for MmrStore::append
//@ vis none
//@ sig CostResult<(), crate::Error> ==> Result<()>
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ at start
  let ghost s0 = *self; let ghost ks = self.key_size;
//@ loop 1
  invariant i <= elems@.len(), self.key_size == ks,
    forall|p: nat| fits(p, ks) && !(pos <= p < pos + elems@.len()) ==> ent(self.ctx@, #[trigger] keyof(p as u64, ks)) == ent(s0.ctx@, keyof(p as u64, ks)),
    forall|j: int| 0 <= j < i ==> fits((pos + j) as nat, ks) && held(self, (pos + j) as nat) == Some(#[trigger] elems@[j]),
    forall|k: Seq<u8>| k.len() == 2 ==> #[trigger] ent(self.ctx@, k) == ent(s0.ctx@, k),
  decreases elems@.len() - i
//@ loopstart 1
  let ghost c0 = self.ctx@; let ghost s1 = *self;
//@ after let result = self.ctx.put($x..);
  proof {
    let np = (pos + i) as u64; let kk = keyof(np, ks); assert(fits(np as nat, ks)); keys_apart(np, np, ks);
    assert forall|p: nat| fits(p, ks) && p != np implies ent(self.ctx@, #[trigger] keyof(p as u64, ks)) == ent(c0, keyof(p as u64, ks)) by { keys_apart(p as u64, np, ks); }
    assert forall|k: Seq<u8>| k.len() == 2 implies #[trigger] ent(self.ctx@, k) == ent(s0.ctx@, k) by { assert(ent(c0, k) == ent(s0.ctx@, k)); }
    assert forall|p: nat| !covers((pos, elems), p) implies #[trigger] held(self, p) == held(&s0, p) by { if fits(p, ks) { assert(ent(c0, keyof(p as u64, ks)) == ent(s0.ctx@, keyof(p as u64, ks))); } }
    parsed_is(elems@[i as int]);
    assert forall|j: int| 0 <= j < i implies held(self, (pos + j) as nat) == Some(#[trigger] elems@[j]) by { assert(held(&s1, (pos + j) as nat) == Some(elems@[j])); }
  }
//@ end
}
