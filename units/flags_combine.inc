// combining and splitting epoch based storage flags
//@ rules
StorageRemovalPerEpochByIdentifier = BTreeMap::new() ==> StorageRemovalPerEpochByIdentifier = SecMap::new()
IntMap<u16, u32> ==> IntMap
IntMap::default() ==> IntMap::new()
[0u8; 32] ==> identifier_default()
.map_err(|mut e| { e.add_info($s); e }) ==>
self.owner_id().copied().unwrap_or_default() ==> owner_or_default(self.owner_id())
self.combine_non_base_epoch_bytes(&rhs).unwrap_or_default() ==> emap_or_default(self.combine_non_base_epoch_bytes(&rhs))
rhs.epoch_index_map().cloned() ==> clone_opt(rhs.epoch_index_map())
$m.iter().for_each(|(epoch_index, bytes_added)| { $b.. }); ==> let mut list = $m.entries_list(); while list.len() > 0 { let p = list.pop().unwrap(); let (epoch_index, bytes_added) = (&p.0, &p.1); $b }
$m.iter().try_for_each(|(epoch, removed_bytes)| { $b.. })?; ==> let mut list = $m.entries_list(); while list.len() > 0 { let p = list.pop().unwrap(); let (epoch, removed_bytes) = (p.0, &p.1); $b }
return Ok::<(), StorageFlagsError>(()); ==> continue;
Ok::<(), StorageFlagsError>(()) } ==> }
other_epoch_bytes.get_mut(&epoch) ==> other_epoch_bytes.get(&epoch)
*bytes_added_in_epoch = desired_bytes_in_epoch; ==> other_epoch_bytes.insert(epoch, desired_bytes_in_epoch);
for key in keys_to_remove { $b.. } ==> let mut keys = keys_to_remove; while keys.len() > 0 { let key = keys.pop().unwrap(); $b }
other_epoch_bytes.iter().rev() ==> other_epoch_bytes.rev_iter()
matches!(&self, &SingleEpoch(_) | &SingleEpochOwned(..)) ==> (match &self { SingleEpoch(_) => true, SingleEpochOwned(..) => true, _ => false })
our_owner_id != other_owner_id ==> !same_id(our_owner_id, other_owner_id)
StorageRemovedBytes::default() ==> StorageRemovedBytes::NoStorageRemoval
*owner_id ==> copy_id(owner_id)
//@ end
//@ const grovedb-epoch-based-storage-flags/src/lib.rs MINIMUM_NON_BASE_FLAGS_SIZE
//@ const grovedb-epoch-based-storage-flags/src/lib.rs SINGLE_EPOCH_FLAGS_SIZE
//@ type grovedb-epoch-based-storage-flags/src/lib.rs MergingOwnersStrategy
#[verifier::external_body] pub fn owner_or_default(o: Option<&OwnerId>) -> (r: OwnerId) ensures r == own_or_zero(match o { Some(x) => Some(*x), None => None }) { unimplemented!() }
#[verifier::external_body] pub fn same_id(a: &OwnerId, b: &OwnerId) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn copy_id(a: &OwnerId) -> (r: OwnerId) ensures r == *a { unimplemented!() }

// ---- specification --------------------------------------------------------
pub open spec fn own_or_zero(o: Option<OwnerId>) -> OwnerId { match o { Some(x) => x, None => zero_id() } }
pub open spec fn fown(f: StorageFlags) -> Option<OwnerId> { match f { SingleEpochOwned(_, o) => Some(o), MultiEpochOwned(_, _, o) => Some(o), _ => None } }
pub open spec fn fmap(f: StorageFlags) -> Option<Map<u16, u32>> { match f { MultiEpoch(_, m) => Some(m@), MultiEpochOwned(_, m, _) => Some(m@), _ => None } }
pub open spec fn opt_map(m: Option<Map<u16, u32>>) -> Map<u16, u32> { match m { Some(x) => x, None => Map::empty() } }
pub open spec fn is_flags(f: StorageFlags, b: u16, m: Option<Map<u16, u32>>, o: Option<OwnerId>) -> bool { fbase(f) == b && fmap(f) == m && fown(f) == o }
// the owner after combining under a strategy; Err: refused
pub open spec fn owners(a: StorageFlags, b: StorageFlags, s: MergingOwnersStrategy) -> Result<Option<OwnerId>, ()> {
    match (fown(a), fown(b)) {
        (Some(x), Some(y)) => if x == y { Ok(Some(x)) } else { match s { MergingOwnersStrategy::RaiseIssue => Err(()), MergingOwnersStrategy::UseOurs => Ok(Some(x)), MergingOwnersStrategy::UseTheirs => Ok(Some(y)) } },
        (Some(x), None) => Ok(Some(x)),
        (None, y) => Ok(y),
    }
}
pub open spec fn umap(a: StorageFlags, b: StorageFlags) -> Option<Map<u16, u32>> {
    match (fmap(a), fmap(b)) { (Some(x), Some(y)) => Some(x.union_prefer_right(y)), (Some(x), None) => Some(x), (None, y) => y }
}
pub open spec fn amt(m: Map<u16, u32>, e: u16) -> int { if m.dom().contains(e) { m[e] as int } else { 0 } }
// combining for an update that adds n bytes
pub open spec fn added(a: StorageFlags, b: StorageFlags, n: u32, s: MergingOwnersStrategy, r: Result<StorageFlags, StorageFlagsError>) -> bool {
    if fbase(a) > fbase(b) || owners(a, b, s).is_err() { r.is_err() }
    else if fbase(a) == fbase(b) { r.is_ok() && is_flags(r->Ok_0, fbase(a), umap(a, b), owners(a, b, s)->Ok_0) }
    else {
        let m = opt_map(umap(a, b)); let e = fbase(b);
        if amt(m, e) + n > u32::MAX { r.is_err() } else { r.is_ok() && is_flags(r->Ok_0, fbase(a), Some(m.insert(e, (amt(m, e) + n) as u32)), owners(a, b, s)->Ok_0) }
    }
}
// the removal asks for at most what each later epoch holds
pub open spec fn covered(m: Map<u16, u32>, sec: Map<u16, u32>, base: u16) -> bool {
    forall|e: u16| #[trigger] sec.dom().contains(e) && e != base ==> m.dom().contains(e) && m[e] >= sec[e]
}
pub open spec fn after_removal(m: Map<u16, u32>, sec: Map<u16, u32>, base: u16, r: Map<u16, u32>) -> bool {
    forall|e: u16| {
        let left = amt(m, e) - (if e != base { amt(sec, e) } else { 0 });
        let touched = e != base && sec.dom().contains(e);
        &&& #[trigger] r.dom().contains(e) <==> (m.dom().contains(e) && (touched ==> left > MINIMUM_NON_BASE_FLAGS_SIZE))
        &&& r.dom().contains(e) ==> r[e] == left
    }
}
pub open spec fn removed(a: StorageFlags, b: StorageFlags, rem: StorageRemovedBytes, s: MergingOwnersStrategy, r: Result<StorageFlags, StorageFlagsError>) -> bool {
    if fbase(a) > fbase(b) { r.is_err() }
    else if fbase(a) == fbase(b) { added(a, b, 0, s, r) }
    else if fmap(a).is_none() { r == Result::<StorageFlags, StorageFlagsError>::Ok(a) }
    else if owners(a, b, s).is_err() { r.is_err() }
    else {
        let m = opt_map(umap(a, b)); let id = own_or_zero(fown(a));
        match rem {
            SectionedStorageRemoval(sec) => {
                if sec@.dom().len() > 1 || !sec@.dom().contains(id) || !covered(m, sec@[id], fbase(a)) { r.is_err() }
                else { r.is_ok() && fbase(r->Ok_0) == fbase(a) && fown(r->Ok_0) == owners(a, b, s)->Ok_0
                        && after_removal(m, sec@[id], fbase(a), opt_map(fmap(r->Ok_0)))
                        && (fmap(r->Ok_0).is_some() ==> fmap(r->Ok_0)->0 != Map::<u16, u32>::empty()) }
            }
            _ => r.is_ok() && fbase(r->Ok_0) == fbase(a) && fown(r->Ok_0) == owners(a, b, s)->Ok_0 && opt_map(fmap(r->Ok_0)) == m,
        }
    }
}
impl StorageFlags {
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::new_single_epoch
//@ ret r
//@ spec
    ensures is_flags(r, epoch, None, maybe_owner_id)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::base_epoch
//@ ret r
//@ spec
    ensures *r == fbase(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::owner_id
//@ ret r
//@ spec
    ensures r.is_some() == fown(*self).is_some(), r.is_some() ==> *r->0 == fown(*self)->0
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::epoch_index_map
//@ ret r
//@ spec
    ensures r.is_some() == fmap(*self).is_some(), r.is_some() ==> r->0@ == fmap(*self)->0
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_owner_id
//@ ret r
//@ spec
    ensures r.is_ok() == owners(*self, *rhs, merging_owners_strategy).is_ok(),
        r.is_ok() ==> r->Ok_0.is_some() == (owners(*self, *rhs, merging_owners_strategy)->Ok_0).is_some(),
        r.is_ok() && r->Ok_0.is_some() ==> *(r->Ok_0->0) == (owners(*self, *rhs, merging_owners_strategy)->Ok_0)->0
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_non_base_epoch_bytes
//@ ret r
//@ spec
    ensures r.is_some() == umap(*self, *rhs).is_some(), r.is_some() ==> r->0@ == umap(*self, *rhs)->0
//@ preloop 1
let ghost A = combined_index_map@; let ghost B = other_epoch_index_map@;
//@ loop 1
invariant
    distinct(list@), sublist(list@, B),
    forall|e: u16| #[trigger] combined_index_map@.dom().contains(e) <==> (A.dom().contains(e) || (B.dom().contains(e) && !has_e(list@, e))),
    forall|e: u16| #[trigger] combined_index_map@.dom().contains(e) ==> combined_index_map@[e] == (if B.dom().contains(e) && !has_e(list@, e) { B[e] } else { A[e] }),
decreases list@.len()
//@ loopstart 1
let ghost l0 = list@;
//@ after list.pop()
proof { lemma_pop_e(l0, list@); assert(l0[l0.len() - 1].0 == p.0); assert(has_e(l0, p.0)); }
//@ postloop 1
proof { assert forall|e: u16| has_e(list@, e) implies false by {} assert(combined_index_map@ =~= A.union_prefer_right(B)); }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_same_base_epoch
//@ ret r
//@ spec
    requires fbase(*self) == fbase(rhs)
    ensures forall|n: u32| added(*self, rhs, n, merging_owners_strategy, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_with_higher_base_epoch
//@ ret r
//@ spec
    requires fbase(*self) < fbase(rhs)
    ensures added(*self, rhs, added_bytes, merging_owners_strategy, r)
//@ before match owner_id
proof { let m = opt_map(umap(*self, rhs)); let e = fbase(rhs); assert(other_epoch_bytes@ =~= m.insert(e, (amt(m, e) + added_bytes) as u32)); }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_with_higher_base_epoch_remove_bytes
//@ ret r
//@ spec
    requires fbase(self) < fbase(rhs)
    ensures removed(self, rhs, *removed_bytes, merging_owners_strategy, r)
//@ preloop 1
let ghost M = other_epoch_bytes@; let ghost R = sectioned_bytes@;
proof { assert(!(exists|e: u16| keys_to_remove@.contains(e))); }
//@ loop 1
invariant
    distinct(list@), sublist(list@, R), base_epoch == fbase(self), M == opt_map(umap(self, rhs)),
    removed_bytes_0 == *removed_bytes, removed_bytes_0 is SectionedStorageRemoval, fbase(self) < fbase(rhs), fmap(self).is_some(), owners(self, rhs, merging_owners_strategy).is_ok(),
    ({ let sm = removed_bytes_0->SectionedStorageRemoval_0@; sm.dom().len() <= 1 && sm.dom().contains(own_or_zero(fown(self))) && sm[own_or_zero(fown(self))] == R }),
    forall|e: u16| #[trigger] R.dom().contains(e) && !has_e(list@, e) && e != base_epoch ==> M.dom().contains(e) && M[e] >= R[e],
    forall|e: u16| #[trigger] other_epoch_bytes@.dom().contains(e) <==> M.dom().contains(e),
    forall|e: u16| #[trigger] other_epoch_bytes@.dom().contains(e) && !keys_to_remove@.contains(e) ==> other_epoch_bytes@[e] == (if e != base_epoch && R.dom().contains(e) && !has_e(list@, e) { M[e] - R[e] } else { M[e] as int }),
    forall|e: u16| #[trigger] keys_to_remove@.contains(e) <==> (e != base_epoch && R.dom().contains(e) && !has_e(list@, e) && M[e] - R[e] <= MINIMUM_NON_BASE_FLAGS_SIZE),
decreases list@.len()
//@ loopstart 1
let ghost l0 = list@; let ghost k0 = keys_to_remove@;
//@ after list.pop()
proof { lemma_pop_e(l0, list@); assert(l0[l0.len() - 1].0 == p.0); assert(has_e(l0, p.0)); assert(R.dom().contains(p.0)); }
//@ after keys_to_remove.push
proof { assert forall|e: u16| #![trigger k0.contains(e)] #![trigger keys_to_remove@.contains(e)] keys_to_remove@.contains(e) <==> k0.contains(e) || e == epoch by {
   if k0.contains(e) { let j = choose|j: int| 0 <= j < k0.len() && k0[j] == e; assert(keys_to_remove@[j] == e); }
   if e == epoch { assert(keys_to_remove@[k0.len() as int] == e); } } }
//@ preloop 2
let ghost K = keys_to_remove@; let ghost M2 = other_epoch_bytes@;
proof { assert forall|e: u16| has_e(list@, e) implies false by {} }
//@ loop 2
invariant
    forall|e: u16| #[trigger] keys@.contains(e) ==> K.contains(e),
    forall|e: u16| #[trigger] other_epoch_bytes@.dom().contains(e) ==> (M2.dom().contains(e) && (!K.contains(e) || keys@.contains(e))),
    forall|e: u16| M2.dom().contains(e) && !K.contains(e) ==> #[trigger] other_epoch_bytes@.dom().contains(e),
    forall|e: u16| #[trigger] other_epoch_bytes@.dom().contains(e) ==> other_epoch_bytes@[e] == M2[e],
decreases keys@.len()
//@ loopstart 2
let ghost q0 = keys@;
//@ after keys.pop()
proof { assert(q0 =~= keys@.push(key)); assert(q0[q0.len() - 1] == key); assert(q0.contains(key)); assert(K.contains(key));  
  assert forall|e: u16| #![trigger q0.contains(e)] #![trigger keys@.contains(e)] q0.contains(e) <==> keys@.contains(e) || e == key by {
    if q0.contains(e) { let j = choose|j: int| 0 <= j < q0.len() && q0[j] == e; if j < keys@.len() { assert(keys@[j] == e); } }
    if keys@.contains(e) { let j = choose|j: int| 0 <= j < keys@.len() && keys@[j] == e; assert(q0[j] == e); } } }
//@ postloop 2
proof { assert(after_removal(M, R, fbase(self), other_epoch_bytes@)); }
//@ at start
let ghost removed_bytes_0 = *removed_bytes;
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_added_bytes
//@ ret r
//@ spec
    ensures added(self, rhs, added_bytes, merging_owners_strategy, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::combine_removed_bytes
//@ ret r
//@ spec
    ensures removed(self, rhs, *removed_bytes, merging_owners_strategy, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::optional_combine_added_bytes
//@ ret r
//@ spec
    ensures match ours { None => r == Result::<StorageFlags, StorageFlagsError>::Ok(theirs), Some(o) => added(o, theirs, added_bytes, merging_owners_strategy, r) }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::optional_combine_removed_bytes
//@ ret r
//@ spec
    ensures match ours { None => r == Result::<StorageFlags, StorageFlagsError>::Ok(theirs), Some(o) => removed(o, theirs, *removed_bytes, merging_owners_strategy, r) }
//@ end
}
// ---- C14: splitting a removal ------------------------------------------------
pub open spec fn take(left: int, held: u32) -> int { let h = if held >= 3 { held - 3 } else { 0 }; if h <= left { h } else { left } }
// bytes still to be charged after the epochs s[k..], newest first
pub open spec fn left_after(s: Seq<(u16, u32)>, k: int, n: int) -> int
    decreases s.len() - k
{ if k >= s.len() || k < 0 { n } else { let l = left_after(s, k + 1, n); l - take(l, s[k].1) } }
pub open spec fn single_split(n: u32, base: u16, o: Option<OwnerId>, r: StorageRemovedBytes) -> bool {
    if n == 0 { r is NoStorageRemoval } else {
        r is SectionedStorageRemoval && r->SectionedStorageRemoval_0@ == Map::<Identifier, Map<u16, u32>>::empty().insert(own_or_zero(o), Map::<u16, u32>::empty().insert(base, n)) }
}
// exactly one identity is charged; every later epoch gives what it holds (less the 3 bytes its entry takes), newest first; the rest comes from the base epoch
pub open spec fn multi_split(n: u32, base: u16, m: Map<u16, u32>, o: Option<OwnerId>, r: StorageRemovedBytes) -> bool {
    if n == 0 { r is NoStorageRemoval } else {
        &&& r is SectionedStorageRemoval
        &&& r->SectionedStorageRemoval_0@.dom() == set![own_or_zero(o)]
        &&& { let c = r->SectionedStorageRemoval_0@[own_or_zero(o)]; let s = entries(m);
              &&& forall|k: int| 0 <= k < s.len() ==> amt(c, #[trigger] s[k].0) == take(left_after(s, k + 1, n as int), s[k].1)
              &&& amt(c, base) == left_after(s, 0, n as int)
              &&& forall|e: u16| #[trigger] c.dom().contains(e) ==> e == base || m.dom().contains(e) }
    }
}
pub proof fn lemma_left(s: Seq<(u16, u32)>, k: int, n: int)
    requires 0 <= k <= s.len(), n >= 0
    ensures 0 <= left_after(s, k, n) <= n
    decreases s.len() - k
{ if k < s.len() { lemma_left(s, k + 1, n); } }
// conservation: what the epochs give plus what the base epoch gives is what was asked for
pub open spec fn taken(s: Seq<(u16, u32)>, k: int, n: int) -> int
    decreases s.len() - k
{ if k >= s.len() || k < 0 { 0 } else { take(left_after(s, k + 1, n), s[k].1) + taken(s, k + 1, n) } }
pub proof fn lemma_conserved(s: Seq<(u16, u32)>, k: int, n: int)
    requires 0 <= k <= s.len()
    ensures taken(s, k, n) + left_after(s, k, n) == n
    decreases s.len() - k
{ if k < s.len() { lemma_conserved(s, k + 1, n); } }

//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::split_storage_removed_bytes > single_storage_removal
//@ ret r
//@ spec
    ensures single_split(removed_bytes, *base_epoch, match owner_id { Some(o) => Some(*o), None => None }, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::split_storage_removed_bytes > sectioned_storage_removal
//@ ret r
//@ spec
    requires !other_epoch_bytes@.dom().contains(*base_epoch)
    ensures multi_split(removed_bytes, *base_epoch, other_epoch_bytes@, match owner_id { Some(o) => Some(*o), None => None }, r)
//@ preloop 1
let ghost s = entries(other_epoch_bytes@); let ghost n = removed_bytes as int;
proof { axiom_entries(other_epoch_bytes@); }
//@ loop 1
invariant_except_break
    rev_iter@.len() <= s.len(), rev_iter@ == s.take(rev_iter@.len() as int), bytes_left == left_after(s, rev_iter@.len() as int, n),
invariant
    entries_ok(s, other_epoch_bytes@), n == removed_bytes, !other_epoch_bytes@.dom().contains(*base_epoch),
    forall|k: int| rev_iter@.len() <= k < s.len() ==> amt(sectioned_storage_removal@, #[trigger] s[k].0) == take(left_after(s, k + 1, n), s[k].1),
    forall|k: int| 0 <= k < rev_iter@.len() && k < s.len() ==> !sectioned_storage_removal@.dom().contains(#[trigger] s[k].0),
    forall|e: u16| #[trigger] sectioned_storage_removal@.dom().contains(e) ==> other_epoch_bytes@.dom().contains(e),
    rev_iter@.len() <= s.len(), rev_iter@ == s.take(rev_iter@.len() as int),
    bytes_left == left_after(s, rev_iter@.len() as int, n),
ensures bytes_left == 0 || rev_iter@.len() == 0
decreases rev_iter@.len(), bytes_left
//@ loopstart 1
let ghost it0 = rev_iter@; let ghost c0 = sectioned_storage_removal@;
proof { lemma_left(s, it0.len() as int, n); }
//@ postloop 1
proof {
   lemma_zero(s, rev_iter@.len() as int, n);
}
let ghost c1 = sectioned_storage_removal@; let ghost kk = rev_iter@.len();
//@ before let mut sectioned_storage_removal_by_identifier
proof {
   let c = sectioned_storage_removal@;
   assert forall|k: int| 0 <= k < s.len() implies amt(c, #[trigger] s[k].0) == take(left_after(s, k + 1, n), s[k].1) by {
      assert(other_epoch_bytes@.dom().contains(s[k].0));
      if k < kk { lemma_zero2(s, k, kk as int, n); }
   }
   assert(amt(c, *base_epoch) == left_after(s, 0, n));
}
//@ end
pub proof fn lemma_zero(s: Seq<(u16, u32)>, k: int, n: int)
    requires 0 <= k <= s.len(), left_after(s, k, n) == 0 || k == 0
    ensures left_after(s, 0, n) == left_after(s, k, n)
    decreases k
{ if k > 0 { assert(left_after(s, k - 1, n) == 0); lemma_zero(s, k - 1, n); } }
pub proof fn lemma_zero2(s: Seq<(u16, u32)>, j: int, k: int, n: int)
    requires 0 <= j < k <= s.len(), left_after(s, k, n) == 0
    ensures left_after(s, j + 1, n) == 0
    decreases k - j
{ if j + 1 < k { lemma_zero2(s, j + 1, k, n); } }
impl StorageFlags {
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::split_storage_removed_bytes
//@ rule1 { fn single_storage_removal $a.. fn sectioned_storage_removal $b.. let key_storage_removal ==> { let key_storage_removal
//@ ret r
//@ spec
    requires fmap(*self).is_some() ==> !fmap(*self)->0.dom().contains(fbase(*self))
    ensures single_split(removed_key_bytes, fbase(*self), fown(*self), r.0),
        match fmap(*self) { None => single_split(removed_value_bytes, fbase(*self), fown(*self), r.1), Some(m) => multi_split(removed_value_bytes, fbase(*self), m, fown(*self), r.1) }
//@ end
}
