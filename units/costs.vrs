// C10, C11: cost records. costs/src
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@ include maps.inc
// ---- specification ------------------------------------------------------
pub open spec fn sat(x: int) -> int { if x > u32::MAX { u32::MAX as int } else { x } }
pub open spec fn sat64(x: int) -> int { if x > u64::MAX { u64::MAX as int } else { x } }
pub open spec fn rem_sum(a: StorageRemovedBytes, b: StorageRemovedBytes, c: StorageRemovedBytes) -> bool {
    forall|i: Identifier, e: u16| #[trigger] rem(c, i, e) == sat(rem(a, i, e) + rem(b, i, e))
}
pub open spec fn sc_sum(a: StorageCost, b: StorageCost, c: StorageCost) -> bool {
    &&& c.added_bytes == sat(a.added_bytes + b.added_bytes)
    &&& c.replaced_bytes == sat(a.replaced_bytes + b.replaced_bytes)
    &&& rem_sum(a.removed_bytes, b.removed_bytes, c.removed_bytes)
}
pub open spec fn oc_sum(a: OperationCost, b: OperationCost, c: OperationCost) -> bool {
    &&& c.seek_count == sat(a.seek_count + b.seek_count)
    &&& sc_sum(a.storage_cost, b.storage_cost, c.storage_cost)
    &&& c.storage_loaded_bytes == sat64(a.storage_loaded_bytes + b.storage_loaded_bytes)
    &&& c.hash_node_calls == sat(a.hash_node_calls + b.hash_node_calls)
    &&& c.sinsemilla_hash_calls == sat(a.sinsemilla_hash_calls + b.sinsemilla_hash_calls)
}
pub open spec fn oc_zero(r: OperationCost) -> bool {
    r.seek_count == 0 && r.storage_cost.added_bytes == 0 && r.storage_cost.replaced_bytes == 0 && r.storage_cost.removed_bytes == StorageRemovedBytes::NoStorageRemoval
    && r.storage_loaded_bytes == 0 && r.hash_node_calls == 0 && r.sinsemilla_hash_calls == 0
}
// consequence of the contracts: combining in any grouping gives the same amounts
pub proof fn rem_assoc(a: StorageRemovedBytes, b: StorageRemovedBytes, c: StorageRemovedBytes, ab: StorageRemovedBytes, bc: StorageRemovedBytes, l: StorageRemovedBytes, r: StorageRemovedBytes)
    requires rem_sum(a, b, ab), rem_sum(ab, c, l), rem_sum(b, c, bc), rem_sum(a, bc, r)
    ensures forall|i: Identifier, e: u16| #[trigger] rem(l, i, e) == rem(r, i, e)
{
    assert forall|i: Identifier, e: u16| #[trigger] rem(l, i, e) == rem(r, i, e) by {
        assert(rem(ab, i, e) == sat(rem(a, i, e) + rem(b, i, e)));
        assert(rem(bc, i, e) == sat(rem(b, i, e) + rem(c, i, e)));
        assert(rem(r, i, e) == sat(rem(a, i, e) + rem(bc, i, e)));
        assert(rem(a, i, e) >= 0 && rem(b, i, e) >= 0 && rem(c, i, e) >= 0);
    }
}

pub open spec fn vlen(x: u32) -> nat { if x < 128 { 1 } else if x < 16384 { 2 } else if x < 2097152 { 3 } else if x < 268435456 { 4 } else { 5 } }
// integer-encoding's LEB128 length (trusted)
#[verifier::external_body] pub fn required_space_u32(x: u32) -> (r: u32) ensures r == vlen(x) { unimplemented!() }
#[verifier::external_body] pub fn any_nonzero(m: &SecMap) -> (r: bool) ensures r == (exists|i: Identifier, e: u16| sec(m@, i, e) != 0) { unimplemented!() }
pub uninterp spec fn sec_total(m: Map<Identifier, Map<u16, u32>>) -> int;
#[verifier::external_body] pub fn sum_values(m: &SecMap) -> (r: u32) ensures r == sat(sec_total(m@)) { unimplemented!() }
pub open spec fn total(r: StorageRemovedBytes) -> int {
    match r { StorageRemovedBytes::NoStorageRemoval => 0, StorageRemovedBytes::BasicStorageRemoval(n) => n as int, StorageRemovedBytes::SectionedStorageRemoval(m) => sat(sec_total(m@)) }
}
//@ rules
$x.required_space() as u32 ==> required_space_u32($x)
m.iter().any(|(_, int_map)| int_map.iter().any(|(_, r)| *r != 0)) ==> any_nonzero(m)
m.values().flat_map(|int_map| int_map.values().copied()).fold(0u32, u32::saturating_add) ==> sum_values(m)
$a.as_ref().map(|$b| { $c.. }).unwrap_or(None) ==> (match &$a { Some($b) => { $c.. } None => None })
expected: self.clone() ==> expected: clone_sc(self)
Identifier::default() ==> identifier_default()
if let std::collections::btree_map::Entry::Vacant(e) = $m.entry(default) { $a.. e.insert($n); } ==> if !$m.contains_key(&default) { $a.. $m.insert(default, $n); }
$m.remove(&default).unwrap_or_default() ==> intmap_or_default($m.remove(&default))
rmap.into_iter().for_each(|(identifier, mut int_map_b)| { $body.. }); ==> let mut rlist = rmap.into_list(); while rlist.len() > 0 { let (identifier, mut int_map_b) = rlist.pop().unwrap(); $body.. }
let intersection = sint_map_a.into_iter().map(|(k, v)| { $body.. }).collect::<IntMap<u16, u32>>(); ==> let mut intersection = IntMap::new(); let mut alist = sint_map_a.into_list(); while alist.len() > 0 { let (k, v) = alist.pop().unwrap(); let kv = { $body.. }; intersection.insert(kv.0, kv.1); }
intersection.into_iter().chain(int_map_b).collect() ==> intersection.chained(int_map_b)
match self.borrow_mut() ==> match self
self.new_node & rhs.new_node ==> self.new_node && rhs.new_node
self.needs_value_verification & rhs.needs_value_verification ==> self.needs_value_verification && rhs.needs_value_verification
self.new_node &= rhs.new_node; ==> self.new_node = self.new_node && rhs.new_node;
self.needs_value_verification &= rhs.needs_value_verification; ==> self.needs_value_verification = self.needs_value_verification && rhs.needs_value_verification;
Self::Output ==> Self
self.storage_cost += StorageCost { $b.. } ==> self.storage_cost.add_assign(StorageCost { $b.. })
self.removed_bytes + rhs.removed_bytes ==> self.removed_bytes.add(rhs.removed_bytes)
self.storage_cost + rhs.storage_cost ==> self.storage_cost.add(rhs.storage_cost)
self.removed_bytes += rhs.removed_bytes; ==> self.removed_bytes.add_assign(rhs.removed_bytes);
self.storage_cost += rhs.storage_cost; ==> self.storage_cost.add_assign(rhs.storage_cost);
self.$f += rhs.$f; ==> self.$f.add_assign(rhs.$f);
self.storage_cost += storage_cost; ==> self.storage_cost.add_assign(storage_cost);
self.cost += cost; ==> self.cost.add_assign(cost);
*acc_cost += self.cost; ==> acc_cost.add_assign(self.cost);
self.$f + rhs.$f ==> self.$f.add(rhs.$f)
self.key_storage_cost.removed_bytes + self.value_storage_cost.removed_bytes ==> self.key_storage_cost.removed_bytes.add(self.value_storage_cost.removed_bytes)
added_bytes: $x, ..Default::default() ==> added_bytes: $x, ..StorageCost::default()
removed_bytes: $x($y), ..Default::default() ==> removed_bytes: $x($y), ..StorageCost::default()
..Default::default() ==> ..OperationCost::default()
//@ end
//@ include costs_transition.inc
//@ type costs/src/error.rs Error
//@ type costs/src/lib.rs TreeCostType
//@ type costs/src/lib.rs ChildKeyLength
//@ type costs/src/lib.rs ChildSumLength
//@ type costs/src/lib.rs FeatureSumLength
//@ type costs/src/lib.rs ChildrenSizesWithIsSumTree
// derived equality: every field
#[verifier::external_body] pub fn same_cost(a: &OperationCost, b: &OperationCost) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn clone_sc(s: &StorageCost) -> (r: StorageCost) ensures r == *s { unimplemented!() }
//@ type costs/src/lib.rs OperationCost
//@ type costs/src/storage_cost/key_value_cost.rs KeyValueStorageCost
//@ type costs/src/context.rs CostContext
impl StorageRemovedBytes {
//@ fn costs/src/storage_cost/removal.rs Add for StorageRemovedBytes::add
//@ ret r
//@ spec
    ensures rem_sum(self, rhs, r)
//@ before #1 let mut rlist
let ghost rm = rmap@; let ghost sm = smap@;
//@ preloop 1
proof { assert forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }) by { } }
//@ loop 1
invariant
    forall|a: int, b: int| 0 <= a < b < rlist@.len() ==> rlist@[a].0 != rlist@[b].0,
    forall|a: int| 0 <= a < rlist@.len() ==> rm.dom().contains(#[trigger] rlist@[a].0) && rm[rlist@[a].0] == rlist@[a].1@,
    forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }),
decreases rlist@.len()
//@ loopstart 1
let ghost rl0 = rlist@; let ghost s0 = smap@;
//@ after rlist.pop()
let ghost B = int_map_b@;
proof { lemma_pop_i(rl0, rlist@); assert(rl0.last().0 == identifier); assert(has_i(rl0, identifier)) by { assert(rl0[rl0.len() - 1].0 == identifier); }
  assert(B == rm[identifier]); }
//@ before let mut intersection
let ghost A = sint_map_a@;
//@ preloop 2
proof { assert forall|e: u16| A.dom().contains(e) implies has_e(alist@, e) by { } }
//@ loop 2
invariant
    forall|a: int, b: int| 0 <= a < b < alist@.len() ==> alist@[a].0 != alist@[b].0,
    forall|a: int| 0 <= a < alist@.len() ==> A.dom().contains(#[trigger] alist@[a].0) && A[alist@[a].0] == alist@[a].1,
    forall|e: u16| #[trigger] intersection@.dom().contains(e) <==> (A.dom().contains(e) && !has_e(alist@, e)),
    forall|e: u16| intersection@.dom().contains(e) ==> #[trigger] intersection@[e] as int == sat(A[e] + get(B, e)),
    forall|e: u16| #[trigger] int_map_b@.dom().contains(e) <==> (B.dom().contains(e) && (!A.dom().contains(e) || has_e(alist@, e))),
    forall|e: u16| int_map_b@.dom().contains(e) ==> #[trigger] int_map_b@[e] == B[e],
decreases alist@.len()
//@ loopstart 2
let ghost al0 = alist@;
//@ after alist.pop()
proof { lemma_pop_e(al0, alist@); assert(al0.last().0 == k); assert(has_e(al0, k)) by { assert(al0[al0.len() - 1].0 == k); } }
//@ postloop 2
proof { assert forall|e: u16| has_e(alist@, e) implies false by { } }
//@ loopend 1
proof {
  assert forall|e: u16| #[trigger] sec(smap@, identifier, e) == sat(sec(sm, identifier, e) + sec(rm, identifier, e)) by {
     assert(sec(s0, identifier, e) == sec(sm, identifier, e));
  }
  assert forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }) by {
    if i != identifier { assert(sec(s0, i, e) == sec(smap@, i, e)); }
  }
}
//@ postloop 1
proof { assert forall|i: Identifier| has_i(rlist@, i) implies false by { } }
//@ end
//@ fn costs/src/storage_cost/removal.rs StorageRemovedBytes::has_removal
//@ ret r
//@ spec
    ensures r == (exists|i: Identifier, e: u16| #[trigger] rem(*self, i, e) != 0)
//@ at start
proof { if let BasicStorageRemoval(n) = *self { assert(rem(*self, zero_id(), UNKNOWN_EPOCH) == n as int); } 
  if let SectionedStorageRemoval(m) = self { assert forall|i: Identifier, e: u16| #[trigger] rem(*self, i, e) == sec(m@, i, e) by {} 
    if exists|i: Identifier, e: u16| sec(m@, i, e) != 0 { let (i, e) = choose|i: Identifier, e: u16| sec(m@, i, e) != 0; assert(rem(*self, i, e) != 0); } } }
//@ end
//@ fn costs/src/storage_cost/removal.rs StorageRemovedBytes::total_removed_bytes
//@ ret r
//@ spec
    ensures r == total(*self)
//@ end
//@ fn costs/src/storage_cost/removal.rs AddAssign for StorageRemovedBytes::add_assign
//@ spec
    ensures rem_sum(*old(self), rhs, *final(self))
//@ before #1 let mut rlist
let ghost rm = rmap@; let ghost sm = smap@;
//@ preloop 1
proof { assert forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }) by { } }
//@ loop 1
invariant
    forall|a: int, b: int| 0 <= a < b < rlist@.len() ==> rlist@[a].0 != rlist@[b].0,
    forall|a: int| 0 <= a < rlist@.len() ==> rm.dom().contains(#[trigger] rlist@[a].0) && rm[rlist@[a].0] == rlist@[a].1@,
    forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }),
decreases rlist@.len()
//@ loopstart 1
let ghost rl0 = rlist@; let ghost s0 = smap@;
//@ after rlist.pop()
let ghost B = int_map_b@;
proof { lemma_pop_i(rl0, rlist@); assert(rl0.last().0 == identifier); assert(has_i(rl0, identifier)) by { assert(rl0[rl0.len() - 1].0 == identifier); }
  assert(B == rm[identifier]); }
//@ before let mut intersection
let ghost A = sint_map_a@;
//@ preloop 2
proof { assert forall|e: u16| A.dom().contains(e) implies has_e(alist@, e) by { } }
//@ loop 2
invariant
    forall|a: int, b: int| 0 <= a < b < alist@.len() ==> alist@[a].0 != alist@[b].0,
    forall|a: int| 0 <= a < alist@.len() ==> A.dom().contains(#[trigger] alist@[a].0) && A[alist@[a].0] == alist@[a].1,
    forall|e: u16| #[trigger] intersection@.dom().contains(e) <==> (A.dom().contains(e) && !has_e(alist@, e)),
    forall|e: u16| intersection@.dom().contains(e) ==> #[trigger] intersection@[e] as int == sat(A[e] + get(B, e)),
    forall|e: u16| #[trigger] int_map_b@.dom().contains(e) <==> (B.dom().contains(e) && (!A.dom().contains(e) || has_e(alist@, e))),
    forall|e: u16| int_map_b@.dom().contains(e) ==> #[trigger] int_map_b@[e] == B[e],
decreases alist@.len()
//@ loopstart 2
let ghost al0 = alist@;
//@ after alist.pop()
proof { lemma_pop_e(al0, alist@); assert(al0.last().0 == k); assert(has_e(al0, k)) by { assert(al0[al0.len() - 1].0 == k); } }
//@ postloop 2
proof { assert forall|e: u16| has_e(alist@, e) implies false by { } }
//@ loopend 1
proof {
  assert forall|e: u16| #[trigger] sec(smap@, identifier, e) == sat(sec(sm, identifier, e) + sec(rm, identifier, e)) by {
     assert(sec(s0, identifier, e) == sec(sm, identifier, e));
  }
  assert forall|i: Identifier, e: u16| #[trigger] sec(smap@, i, e) == (if has_i(rlist@, i) { sec(sm, i, e) } else { sat(sec(sm, i, e) + sec(rm, i, e)) }) by {
    if i != identifier { assert(sec(s0, i, e) == sec(smap@, i, e)); }
  }
}
//@ postloop 1
proof { assert forall|i: Identifier| has_i(rlist@, i) implies false by { } }
//@ end
}

impl StorageCost {
//@ fn costs/src/storage_cost/mod.rs Default for StorageCost::default
//@ ret r
//@ spec
    ensures r.added_bytes == 0, r.replaced_bytes == 0, r.removed_bytes == StorageRemovedBytes::NoStorageRemoval
//@ end
//@ fn costs/src/storage_cost/mod.rs Add for StorageCost::add
//@ ret r
//@ spec
    ensures sc_sum(self, rhs, r)
//@ end
//@ fn costs/src/storage_cost/mod.rs AddAssign for StorageCost::add_assign
//@ spec
    ensures sc_sum(*old(self), rhs, *final(self))
//@ end
}
impl StorageCost {
//@ fn costs/src/storage_cost/mod.rs StorageCost::verify
//@ ret r
//@ spec
    requires self.added_bytes + self.replaced_bytes <= u32::MAX
    ensures r.is_ok() == (self.added_bytes + self.replaced_bytes == len)
//@ end
//@ fn costs/src/storage_cost/mod.rs StorageCost::verify_key_storage_cost
//@ ret r
//@ spec
    requires self.added_bytes + self.replaced_bytes <= u32::MAX
    ensures r.is_ok() == (!new_node || self.added_bytes + self.replaced_bytes == len)
//@ end
//@ fn costs/src/storage_cost/mod.rs StorageCost::worse_or_eq_than
//@ rule self.removed_bytes <= other.removed_bytes ==> self.removed_bytes.total_removed_bytes() <= other.removed_bytes.total_removed_bytes()
//@ ret r
//@ spec
    ensures r == (self.replaced_bytes >= other.replaced_bytes && self.added_bytes >= other.added_bytes && total(self.removed_bytes) <= total(other.removed_bytes))
//@ end
//@ fn costs/src/storage_cost/mod.rs StorageCost::has_storage_change
//@ ret r
//@ spec
    ensures r == (self.added_bytes != 0 || total(self.removed_bytes) != 0)
//@ end
}
impl TreeCostType {
//@ fn costs/src/lib.rs TreeCostType::cost_size
//@ ret r
//@ spec
    ensures r == tct(*self)
//@ end
}
pub open spec fn tct(t: TreeCostType) -> int { match t { TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes => 8, _ => 16 } }
pub open spec fn sub0(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub open spec fn paid(n: int) -> int { n + vlen(n as u32) }
// bytes paid for a stored value of `value_len` bytes whose node carries children and an optional sum feature
pub open spec fn paid_value(key_len: int, value_len: int, c: ChildrenSizesWithIsSumTree) -> int {
    match c {
        None => paid(value_len),
        Some((sum, l, r)) => {
            let v = sub0(value_len, 2);
            let v = match l { Some((a, b)) => sub0(sub0(v, a as int), b as int), None => v };
            let v = match r { Some((a, b)) => sub0(sub0(v, a as int), b as int), None => v };
            let s = match sum { Some((t, _n)) => tct(t), None => 0 };
            let v = match sum { Some((_t, n)) => sub0(v, n as int) + s, None => v };
            paid(v) + key_len + 4 + s
        }
    }
}
impl OperationCost {
//@ fn costs/src/lib.rs OperationCost::worse_or_eq_than
//@ ret r
//@ spec
    ensures r ==> self.seek_count >= other.seek_count && self.storage_loaded_bytes >= other.storage_loaded_bytes && self.hash_node_calls >= other.hash_node_calls
        && self.sinsemilla_hash_calls >= other.sinsemilla_hash_calls && self.storage_cost.added_bytes >= other.storage_cost.added_bytes
        && self.storage_cost.replaced_bytes >= other.storage_cost.replaced_bytes && total(self.storage_cost.removed_bytes) <= total(other.storage_cost.removed_bytes),
      !r ==> !(self.seek_count >= other.seek_count && self.storage_loaded_bytes >= other.storage_loaded_bytes && self.hash_node_calls >= other.hash_node_calls
        && self.sinsemilla_hash_calls >= other.sinsemilla_hash_calls && self.storage_cost.added_bytes >= other.storage_cost.added_bytes
        && self.storage_cost.replaced_bytes >= other.storage_cost.replaced_bytes && total(self.storage_cost.removed_bytes) <= total(other.storage_cost.removed_bytes)),
//@ end
//@ fn costs/src/lib.rs OperationCost::add_key_value_storage_costs
//@ ret res
//@ spec
    requires key_len < 0x1000_0000, value_len < 0x1000_0000,
        storage_cost_info.is_some() ==> storage_cost_info->0.key_storage_cost.added_bytes + storage_cost_info->0.key_storage_cost.replaced_bytes <= u32::MAX
            && storage_cost_info->0.value_storage_cost.added_bytes + storage_cost_info->0.value_storage_cost.replaced_bytes <= u32::MAX,
    ensures
        ({ let o = *old(self); let n = *final(self); let pv = paid_value(key_len as int, value_len as int, children_sizes); let pk = paid(key_len as int);
          &&& n.seek_count == o.seek_count && n.storage_loaded_bytes == o.storage_loaded_bytes && n.hash_node_calls == o.hash_node_calls && n.sinsemilla_hash_calls == o.sinsemilla_hash_calls
          &&& res.is_err() ==> n == o
          &&& match storage_cost_info {
                None => res.is_ok() && n.storage_cost.added_bytes == sat(sat(o.storage_cost.added_bytes + pk) + pv) && n.storage_cost.replaced_bytes == o.storage_cost.replaced_bytes
                    && forall|i: Identifier, e: u16| #[trigger] rem(n.storage_cost.removed_bytes, i, e) == rem(o.storage_cost.removed_bytes, i, e),
                Some(s) => {
                    &&& res.is_ok() == ((s.new_node ==> s.key_storage_cost.added_bytes + s.key_storage_cost.replaced_bytes == pk)
                          && (s.needs_value_verification ==> s.value_storage_cost.added_bytes + s.value_storage_cost.replaced_bytes == pv))
                    &&& res.is_ok() ==> exists|m: StorageCost| sc_sum(o.storage_cost, s.key_storage_cost, m) && #[trigger] sc_sum(m, s.value_storage_cost, n.storage_cost)
                }
              } })
//@ end
#[verifier::external_body]
pub fn default() -> (r: Self) ensures oc_zero(r) { unimplemented!() }
//@ fn costs/src/lib.rs OperationCost::is_nothing
//@ rule self == &Self::default() ==> same_cost(self, &Self::default())
//@ ret r
//@ spec
    ensures r == oc_zero(*self)
//@ end
//@ fn costs/src/lib.rs OperationCost::with_seek_count
//@ ret r
//@ spec
    ensures r.seek_count == seek_count, r.storage_cost.added_bytes == 0, r.storage_cost.replaced_bytes == 0, r.storage_cost.removed_bytes == NoStorageRemoval, r.storage_loaded_bytes == 0, r.hash_node_calls == 0, r.sinsemilla_hash_calls == 0
//@ end
//@ fn costs/src/lib.rs OperationCost::with_storage_written_bytes
//@ ret r
//@ spec
    ensures r.seek_count == 0, r.storage_cost.added_bytes == storage_written_bytes, r.storage_cost.replaced_bytes == 0, r.storage_cost.removed_bytes == NoStorageRemoval, r.storage_loaded_bytes == 0, r.hash_node_calls == 0, r.sinsemilla_hash_calls == 0
//@ end
//@ fn costs/src/lib.rs OperationCost::with_storage_loaded_bytes
//@ ret r
//@ spec
    ensures r.seek_count == 0, r.storage_cost.added_bytes == 0, r.storage_cost.replaced_bytes == 0, r.storage_cost.removed_bytes == NoStorageRemoval, r.storage_loaded_bytes == storage_loaded_bytes, r.hash_node_calls == 0, r.sinsemilla_hash_calls == 0
//@ end
//@ fn costs/src/lib.rs OperationCost::with_storage_freed_bytes
//@ ret r
//@ spec
    ensures r.seek_count == 0, r.storage_cost.added_bytes == 0, r.storage_cost.replaced_bytes == 0, r.storage_cost.removed_bytes == BasicStorageRemoval(storage_freed_bytes), r.storage_loaded_bytes == 0, r.hash_node_calls == 0, r.sinsemilla_hash_calls == 0
//@ end
//@ fn costs/src/lib.rs OperationCost::with_hash_node_calls
//@ ret r
//@ spec
    ensures r.seek_count == 0, r.storage_cost.added_bytes == 0, r.storage_cost.replaced_bytes == 0, r.storage_cost.removed_bytes == NoStorageRemoval, r.storage_loaded_bytes == 0, r.hash_node_calls == hash_node_calls, r.sinsemilla_hash_calls == 0
//@ end
//@ fn costs/src/lib.rs Add for OperationCost::add
//@ ret r
//@ spec
    ensures oc_sum(self, rhs, r)
//@ end
//@ fn costs/src/lib.rs AddAssign for OperationCost::add_assign
//@ spec
    ensures oc_sum(*old(self), rhs, *final(self))
//@ end
//@ fn costs/src/lib.rs OperationCost::add_storage_costs
//@ spec
    ensures ({ let o = *old(self); let n = *final(self);
      &&& n.seek_count == o.seek_count && n.storage_loaded_bytes == o.storage_loaded_bytes && n.hash_node_calls == o.hash_node_calls && n.sinsemilla_hash_calls == o.sinsemilla_hash_calls
      &&& match storage_cost_info {
            Some(c) => sc_sum(o.storage_cost, c, n.storage_cost),
            None => n.storage_cost.added_bytes == sat(o.storage_cost.added_bytes + len_with_required_space) && n.storage_cost.replaced_bytes == o.storage_cost.replaced_bytes
                  && rem_sum(o.storage_cost.removed_bytes, NoStorageRemoval, n.storage_cost.removed_bytes),
          }
    })
//@ end
}
impl KeyValueStorageCost {
//@ fn costs/src/storage_cost/key_value_cost.rs Add for KeyValueStorageCost::add
//@ ret r
//@ spec
    ensures sc_sum(self.key_storage_cost, rhs.key_storage_cost, r.key_storage_cost), sc_sum(self.value_storage_cost, rhs.value_storage_cost, r.value_storage_cost),
//@ end
//@ fn costs/src/storage_cost/key_value_cost.rs AddAssign for KeyValueStorageCost::add_assign
//@ spec
    ensures sc_sum(old(self).key_storage_cost, rhs.key_storage_cost, final(self).key_storage_cost), sc_sum(old(self).value_storage_cost, rhs.value_storage_cost, final(self).value_storage_cost),
//@ end
//@ fn costs/src/storage_cost/key_value_cost.rs KeyValueStorageCost::for_updated_root_cost
//@ ret r
//@ spec
    requires tree_key_len <= 0xffff_ff00, old_tree_key_len.is_some() ==> old_tree_key_len->0 <= 0xffff_ff00
    ensures !r.needs_value_verification, r.new_node == old_tree_key_len.is_none(),
      r.key_storage_cost.removed_bytes == NoStorageRemoval,
      match old_tree_key_len {
        None => r.key_storage_cost.added_bytes == 34 && r.key_storage_cost.replaced_bytes == 0
             && r.value_storage_cost.added_bytes == paid(tree_key_len as int) && r.value_storage_cost.replaced_bytes == 0 && r.value_storage_cost.removed_bytes == NoStorageRemoval,
        Some(o) => r.key_storage_cost.added_bytes == 0 && r.key_storage_cost.replaced_bytes == 34
             && r.value_storage_cost.added_bytes + r.value_storage_cost.replaced_bytes == paid(tree_key_len as int)
             && r.value_storage_cost.replaced_bytes + total(r.value_storage_cost.removed_bytes) == paid(o as int)
             && (r.value_storage_cost.added_bytes == 0 || total(r.value_storage_cost.removed_bytes) == 0)
      }
//@ end
//@ fn costs/src/storage_cost/key_value_cost.rs KeyValueStorageCost::combined_removed_bytes
//@ ret r
//@ spec
    ensures rem_sum(self.key_storage_cost.removed_bytes, self.value_storage_cost.removed_bytes, r)
//@ end
}
// ---- CostContext: every combinator charges exactly what it is given -----------------
impl<T> CostContext<T> {
//@ fn costs/src/context.rs CostContext::unwrap_add_cost
//@ ret r
//@ spec
    ensures r == self.value, oc_sum(*old(acc_cost), self.cost, *final(acc_cost))
//@ end
//@ fn costs/src/context.rs CostContext::unwrap
//@ ret r
//@ spec
    ensures r == self.value
//@ end
//@ fn costs/src/context.rs CostContext::cost
//@ ret r
//@ spec
    ensures *r == self.cost
//@ end
//@ fn costs/src/context.rs CostContext::value
//@ ret r
//@ spec
    ensures *r == self.value
//@ end
//@ fn costs/src/context.rs CostContext::map
//@ ret r
//@ spec
    requires f.requires((self.value,))
    ensures r.cost == self.cost, f.ensures((self.value,), r.value)
//@ end
//@ fn costs/src/context.rs CostContext::flat_map
//@ ret r
//@ spec
    requires f.requires((self.value,))
    ensures exists|m: CostContext<B>| #[trigger] f.ensures((self.value,), m) && r.value == m.value && oc_sum(self.cost, m.cost, r.cost)
//@ end
//@ fn costs/src/context.rs CostContext::add_cost
//@ sig mut self ==> self
//@ rulefirst { self.cost += cost; self } ==> { let mut this = self; this.cost.add_assign(cost); this }
//@ ret r
//@ spec
    ensures r.value == self.value, oc_sum(self.cost, cost, r.cost)
//@ end
}
impl<T, E> CostContext<Result<T, E>> {
//@ fn costs/src/context.rs CostResult::map_ok
//@ sig CostResult<B, E> ==> CostContext<Result<B, E>>
//@ rule self.map(|result| result.map(f)) ==> { let cost = self.cost; let value = match self.value { Ok(v) => Ok(f(v)), Err(e) => Err(e) }; CostContext { value, cost } }
//@ ret r
//@ spec
    requires self.value.is_ok() ==> f.requires((self.value->Ok_0,))
    ensures r.cost == self.cost, r.value.is_ok() == self.value.is_ok(),
       self.value.is_ok() ==> f.ensures((self.value->Ok_0,), r.value->Ok_0), self.value.is_err() ==> r.value == Result::<B, E>::Err(self.value->Err_0)
//@ end
//@ fn costs/src/context.rs CostResult::flat_map_ok
//@ sig CostResult<B, E> ==> CostContext<Result<B, E>>
//@ ret r
//@ spec
    requires self.value.is_ok() ==> f.requires((self.value->Ok_0,))
    ensures
       self.value.is_err() ==> r.cost == self.cost && r.value == Result::<B, E>::Err(self.value->Err_0),
       self.value.is_ok() ==> exists|m: CostContext<Result<B, E>>| #[trigger] f.ensures((self.value->Ok_0,), m) && r.value == m.value && oc_sum(self.cost, m.cost, r.cost)
//@ end
}
impl<T, E> CostContext<Result<T, E>> {
//@ fn costs/src/context.rs CostResult::cost_as_result
//@ rule self.value.map(|_| self.cost) ==> { let cost = self.cost; match self.value { Ok(_) => Ok(cost), Err(e) => Err(e) } }
//@ ret r
//@ spec
    ensures r == (match self.value { Ok(_) => Result::<OperationCost, E>::Ok(self.cost), Err(e) => Result::<OperationCost, E>::Err(e) })
//@ end
//@ fn costs/src/context.rs CostResult::for_ok
//@ sig CostResult<T, E> ==> CostContext<Result<T, E>>
//@ ret r
//@ spec
    requires self.value.is_ok() ==> f.requires((&self.value->Ok_0,))
    ensures r == self, self.value.is_ok() ==> f.ensures((&self.value->Ok_0,), ())
//@ end
}
impl<T> CostContext<CostContext<T>> {
//@ fn costs/src/context.rs CostContext::flatten
//@ ret r
//@ spec
    ensures r.value == self.value.value, oc_sum(self.value.cost, self.cost, r.cost)
//@ end
}

// ---- the macros that return early on an error, expanded from their own text ----------
pub trait CostsExt: Sized {
//@ fn costs/src/context.rs CostsExt::wrap_with_cost
//@ vis none
//@ ret r
//@ spec
    ensures r.value == self, r.cost == cost
//@ end
}
impl<T> CostsExt for T {}
pub struct Low(pub u64);
pub struct High(pub u64);
impl Low { pub fn into(self) -> (r: High) ensures r.0 == self.0 { High(self.0) } }
//@ macro costs/src/context.rs cost_return_on_error
//@ macro costs/src/context.rs cost_return_on_error_into
//@ macro costs/src/context.rs cost_return_on_error_no_add
//@ macro costs/src/context.rs cost_return_on_error_into_no_add
//@ macro costs/src/context.rs cost_return_on_error_default
//@ macro costs/src/context.rs cost_return_on_error_into_default
//@ rules
use CostsExt; ==> {}
//@ end
// what a function gets that asks for a value through a macro and goes on with it
pub open spec fn went<T, E, F>(x: Result<T, E>, conv: spec_fn(E) -> F, r: Result<(T, bool), F>) -> bool
{ match x { Ok(v) => r == Result::<(T, bool), F>::Ok((v, true)), Err(e) => r == Result::<(T, bool), F>::Err(conv(e)) } }
//@ text
pub fn use_return_on_error<T, E>(start: OperationCost, x: CostContext<Result<T, E>>) -> (r: CostContext<Result<(T, bool), E>>)
    ensures went(x.value, |e: E| e, r.value), oc_sum(start, x.cost, r.cost)
{ let mut cost = start; let v = cost_return_on_error!(&mut cost, x); Ok((v, true)).wrap_with_cost(cost) }
pub fn use_return_on_error_into<T>(start: OperationCost, x: CostContext<Result<T, Low>>) -> (r: CostContext<Result<(T, bool), High>>)
    ensures went(x.value, |e: Low| High(e.0), r.value), oc_sum(start, x.cost, r.cost)
{ let mut cost = start; let v = cost_return_on_error_into!(&mut cost, x); Ok((v, true)).wrap_with_cost(cost) }
pub fn use_return_on_error_no_add<T, E>(cost: OperationCost, x: Result<T, E>) -> (r: CostContext<Result<(T, bool), E>>)
    ensures went(x, |e: E| e, r.value), r.cost == cost
{ let v = cost_return_on_error_no_add!(cost, x); Ok((v, true)).wrap_with_cost(cost) }
pub fn use_return_on_error_into_no_add<T>(cost: OperationCost, x: Result<T, Low>) -> (r: CostContext<Result<(T, bool), High>>)
    ensures went(x, |e: Low| High(e.0), r.value), r.cost == cost
{ let v = cost_return_on_error_into_no_add!(cost, x); Ok((v, true)).wrap_with_cost(cost) }
pub fn use_return_on_error_default<T, E>(cost: OperationCost, x: Result<T, E>) -> (r: CostContext<Result<(T, bool), E>>)
    ensures went(x, |e: E| e, r.value), x is Err ==> oc_zero(r.cost)
{ let v = cost_return_on_error_default!(x); Ok((v, true)).wrap_with_cost(cost) }
pub fn use_return_on_error_into_default<T>(cost: OperationCost, x: Result<T, Low>) -> (r: CostContext<Result<(T, bool), High>>)
    ensures went(x, |e: Low| High(e.0), r.value), x is Err ==> oc_zero(r.cost)
{ let v = cost_return_on_error_into_default!(x); Ok((v, true)).wrap_with_cost(cost) }
//@ end
} // verus!
fn main() {}
