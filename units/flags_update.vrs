// C12, C13, C14: the entry points taking and returning stored element flags. grovedb-epoch-based-storage-flags/src
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include maps.inc
//@ include emap.inc
//@ include costs_transition.inc assumed costs
//@ include flags_types.inc
//@ include flags_codec.inc assumed flags_codec
//@ include flags_combine.inc assumed flags
//@ rules
maybe_old_storage_flags.clone() ==> clone_flags_opt(&maybe_old_storage_flags)
new_storage_flags.clone() ==> clone_flags(&new_storage_flags)
combined_flags == *new_flags ==> same_bytes(&combined_flags, new_flags)
//@ end
//@ type grovedb-epoch-based-storage-flags/src/lib.rs ElementFlags
#[verifier::external_body] pub fn same_bytes(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
// derived Clone
#[verifier::external_body] pub fn clone_flags(a: &StorageFlags) -> (r: StorageFlags) ensures view(r) == view(*a) { unimplemented!() }
#[verifier::external_body] pub fn clone_flags_opt(a: &Option<StorageFlags>) -> (r: Option<StorageFlags>) ensures r.is_some() == a.is_some(), a.is_some() ==> view(r->0) == view(a->0) { unimplemented!() }

// ---- specification ----------------------------------------------------------
pub open spec fn understood(d: Seq<u8>) -> bool { d.len() > 0 && parse(d).is_some() }
pub open spec fn has_removal(c: StorageCost) -> bool { exists|i: Identifier, e: u16| #[trigger] rem(c.removed_bytes, i, e) != 0 }
// the flags written after an update, from those combined
pub open spec fn written(c: Result<StorageFlags, StorageFlagsError>, n0: Seq<u8>, n1: Seq<u8>, r: Result<bool, StorageFlagsError>) -> bool {
    match c { Err(_) => r.is_err() && n1 == n0, Ok(f) => n1 == enc(f) && r == Result::<bool, StorageFlagsError>::Ok(n0 != enc(f)) }
}
pub open spec fn grown(o: Seq<u8>, n0: Seq<u8>, added_bytes: u32, n1: Seq<u8>, r: Result<bool, StorageFlagsError>) -> bool {
    exists|a: StorageFlags, b: StorageFlags, c: Result<StorageFlags, StorageFlagsError>|
        view(a) == parse(o)->0 && view(b) == parse(n0)->0 && #[trigger] added(a, b, added_bytes, MergingOwnersStrategy::UseTheirs, c) && written(c, n0, n1, r)
}
pub open spec fn shrunk(o: Seq<u8>, n0: Seq<u8>, rb: StorageRemovedBytes, n1: Seq<u8>, r: Result<bool, StorageFlagsError>) -> bool {
    exists|a: StorageFlags, b: StorageFlags, c: Result<StorageFlags, StorageFlagsError>|
        view(a) == parse(o)->0 && view(b) == parse(n0)->0 && #[trigger] removed(a, b, rb, MergingOwnersStrategy::UseTheirs, c) && written(c, n0, n1, r)
}
pub open spec fn updated(cost: StorageCost, old_flags: Option<Seq<u8>>, n0: Seq<u8>, n1: Seq<u8>, r: Result<bool, StorageFlagsError>) -> bool {
    match old_flags {
        None => n1 == n0 && r == Result::<bool, StorageFlagsError>::Ok(false),
        Some(o) =>
            if !understood(o) || !understood(n0) { n1 == n0 && r.is_err() }
            else if cost.replaced_bytes > 0 && cost.added_bytes > 0 && !has_removal(cost) { grown(o, n0, cost.added_bytes, n1, r) }
            else if cost.replaced_bytes > 0 && cost.added_bytes == 0 && has_removal(cost) { shrunk(o, n0, cost.removed_bytes, n1, r) }
            else if cost.replaced_bytes > 0 && cost.added_bytes == 0 { r == Result::<bool, StorageFlagsError>::Ok(true) && understood(n1) && parse(n1) == parse(o) }
            else { n1 == n0 && r == Result::<bool, StorageFlagsError>::Ok(false) },
    }
}
// key and value removal, charged to the epochs and owner the stored flags name
pub open spec fn split_by(f: Flags, kb: u32, vb: u32, r: (StorageRemovedBytes, StorageRemovedBytes)) -> bool {
    match f {
        Flags::S(b) => single_split(kb, b, None, r.0) && single_split(vb, b, None, r.1),
        Flags::SO(b, o) => single_split(kb, b, Some(o), r.0) && single_split(vb, b, Some(o), r.1),
        Flags::M(b, m) => single_split(kb, b, None, r.0) && multi_split(vb, b, m, None, r.1),
        Flags::MO(b, m, o) => single_split(kb, b, Some(o), r.0) && multi_split(vb, b, m, Some(o), r.1),
    }
}
// no later epoch is the base epoch itself
pub open spec fn base_once(f: Flags) -> bool { match f { Flags::M(b, m) => !m.dom().contains(b), Flags::MO(b, m, _) => !m.dom().contains(b), _ => true } }
pub proof fn lemma_view(a: StorageFlags, b: StorageFlags)
    requires view(a) == view(b)
    ensures fbase(a) == fbase(b), fmap(a) == fmap(b), fown(a) == fown(b), enc(a) == enc(b), valid(a) == valid(b)
{}
// decoded flags always hold an epoch where they hold epochs
pub proof fn lemma_parse_grows(d: Seq<u8>, off: int, acc: Map<u16, u32>)
    ensures parse_map(d, off, acc).is_some() ==> forall|e: u16| acc.dom().contains(e) ==> #[trigger] parse_map(d, off, acc)->0.dom().contains(e)
    decreases d.len() - off
{
    if 0 <= off && off + 2 < d.len() {
        match unvar(d.skip(off + 2)) { None => {}, Some((v, n)) => if 0 < n <= d.len() - off - 2 { lemma_parse_grows(d, off + 2 + n, acc.insert(un16(d.subrange(off, off + 2)), v)); } }
    }
}
pub proof fn lemma_parse_valid(d: Seq<u8>, f: StorageFlags)
    requires understood(d), parse(d)->0 == view(f)
    ensures valid(f)
{
    if d[0] == 1 || d[0] == 3 {
        let off = if d[0] == 1 { 3int } else { 35int };
        let e = un16(d.subrange(off, off + 2));
        match unvar(d.skip(off + 2)) { None => {}, Some((v, n)) => {
            let acc = Map::<u16, u32>::empty().insert(e, v);
            lemma_parse_grows(d, off + 2 + n, acc); assert(acc.dom().contains(e));
            assert(parse_map(d, off, Map::empty()) == parse_map(d, off + 2 + n, acc));
            assert(fmap(f)->0.dom().contains(e));
        } }
    }
}
pub proof fn lemma_some_epoch(m: Map<u16, u32>) -> (e: u16) requires m != Map::<u16, u32>::empty() ensures m.dom().contains(e)
{ if forall|e: u16| !m.dom().contains(e) { assert(m =~= Map::<u16, u32>::empty()); } choose|e: u16| m.dom().contains(e) }
pub proof fn lemma_union_valid(a: StorageFlags, b: StorageFlags)
    requires valid(a), valid(b)
    ensures umap(a, b).is_some() ==> umap(a, b)->0 != Map::<u16, u32>::empty()
{
    if umap(a, b).is_some() {
        let x = if fmap(a).is_some() { fmap(a)->0 } else { fmap(b)->0 };
        let e = lemma_some_epoch(x);
        assert(umap(a, b)->0.dom().contains(e));
    }
}
pub proof fn lemma_added_valid(a: StorageFlags, b: StorageFlags, n: u32, s: MergingOwnersStrategy, c: Result<StorageFlags, StorageFlagsError>)
    requires valid(a), valid(b), added(a, b, n, s, c), c.is_ok()
    ensures valid(c->Ok_0)
{
    lemma_union_valid(a, b);
    if fbase(a) < fbase(b) { assert(fmap(c->Ok_0)->0.dom().contains(fbase(b))); }
}
pub proof fn lemma_removed_valid(a: StorageFlags, b: StorageFlags, rb: StorageRemovedBytes, s: MergingOwnersStrategy, c: Result<StorageFlags, StorageFlagsError>)
    requires valid(a), valid(b), removed(a, b, rb, s, c), c.is_ok()
    ensures valid(c->Ok_0)
{
    lemma_union_valid(a, b);
    if fbase(a) == fbase(b) { lemma_added_valid(a, b, 0, s, c); }
}
impl StorageFlags {
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::from_slice
//@ ret r
//@ spec
    ensures data@.len() == 0 ==> r.is_ok() && r->Ok_0.is_none(),
        data@.len() > 0 ==> (match parse(data@) { None => r.is_err(), Some(x) => r.is_ok() && r->Ok_0.is_some() && view(r->Ok_0->0) == x }),
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::from_element_flags_ref
//@ ret r
//@ spec
    ensures data@.len() == 0 ==> r.is_ok() && r->Ok_0.is_none(),
        data@.len() > 0 ==> (match parse(data@) { None => r.is_err(), Some(x) => r.is_ok() && r->Ok_0.is_some() && view(r->Ok_0->0) == x }),
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::map_some_element_flags_ref
//@ ret r
//@ spec
    ensures data.is_none() || data->0@.len() == 0 ==> r.is_ok() && r->Ok_0.is_none(),
        data.is_some() && data->0@.len() > 0 ==> (match parse(data->0@) { None => r.is_err(), Some(x) => r.is_ok() && r->Ok_0.is_some() && view(r->Ok_0->0) == x }),
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::map_owned_to_element_flags
//@ rule maybe_storage_flags.map(|storage_flags| storage_flags.serialize()).unwrap_or_default() ==> match maybe_storage_flags { Some(storage_flags) => storage_flags.serialize(), None => Vec::new() }
//@ ret r
//@ spec
    requires maybe_storage_flags.is_some() ==> valid(maybe_storage_flags->0)
    ensures r@ =~= (match maybe_storage_flags { None => Seq::empty(), Some(f) => enc(f) })
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::map_to_some_element_flags
//@ rule maybe_storage_flags.map(|storage_flags| storage_flags.serialize()) ==> match maybe_storage_flags { Some(storage_flags) => Some(storage_flags.serialize()), None => None }
//@ ret r
//@ spec
    requires maybe_storage_flags.is_some() ==> valid(*maybe_storage_flags->0)
    ensures r.is_some() == maybe_storage_flags.is_some(), r.is_some() ==> r->0@ == enc(*maybe_storage_flags->0)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::to_some_element_flags
//@ ret r
//@ spec
    requires valid(*self)
    ensures r.is_some(), r->0@ == enc(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::to_element_flags
//@ ret r
//@ spec
    requires valid(*self)
    ensures r@ == enc(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::set_owner_id
//@ rule SingleEpochOwned(_, $p) | MultiEpochOwned(_, _, $q) => { $b.. } ==> SingleEpochOwned(_, $p) => { $b } MultiEpochOwned(_, _, $q) => { $b }
//@ spec
    ensures fbase(*final(self)) == fbase(*old(self)), fmap(*final(self)) == fmap(*old(self)),
        fown(*final(self)) == (if fown(*old(self)).is_some() { Some(owner_id) } else { None::<OwnerId> })
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::approximate_size
//@ ret r
//@ spec
    ensures r == approx(has_owner_id, approximate_changes_and_bytes_count)
//@ at start
proof { if approximate_changes_and_bytes_count.is_some() { let x = approximate_changes_and_bytes_count->0; lemma_product(x.0, x.1); } }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/update_element_flags.rs StorageFlags::update_element_flags
//@ ret r
//@ spec
    ensures updated(*cost, (match old_flags { Some(o) => Some(o@), None => None }), old(new_flags)@, final(new_flags)@, r)
//@ at start
let ghost o0 = old_flags; let ghost n0 = new_flags@;
//@ before match &cost
let ghost a0 = old_storage_flags; let ghost b0 = new_storage_flags;
proof { lemma_parse_valid(o0->0@, a0); lemma_parse_valid(n0, b0); roundtrip(a0);
  assert forall|f: StorageFlags| #[trigger] view(f) == view(a0) implies enc(f) == enc(a0) && valid(f) by { lemma_view(f, a0); }
  assert forall|a: StorageFlags, b: StorageFlags, c: Result<StorageFlags, StorageFlagsError>| view(a) == view(a0) && view(b) == view(b0) && c.is_ok() && #[trigger] added(a, b, cost.added_bytes, MergingOwnersStrategy::UseTheirs, c)
    implies valid(c->Ok_0) by { lemma_added_valid(a, b, cost.added_bytes, MergingOwnersStrategy::UseTheirs, c); }
  assert forall|a: StorageFlags, b: StorageFlags, c: Result<StorageFlags, StorageFlagsError>| view(a) == view(a0) && view(b) == view(b0) && c.is_ok() && #[trigger] removed(a, b, cost.removed_bytes, MergingOwnersStrategy::UseTheirs, c)
    implies valid(c->Ok_0) by { lemma_removed_valid(a, b, cost.removed_bytes, MergingOwnersStrategy::UseTheirs, c); }
}
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/split_removal_bytes.rs StorageFlags::split_removal_bytes
//@ ret r
//@ spec
    requires understood(old(flags)@) ==> base_once(parse(old(flags)@)->0)
    ensures final(flags)@ == old(flags)@, old(flags)@.len() > 0 && parse(old(flags)@).is_none() ==> r.is_err(),
        old(flags)@.len() == 0 ==> r == Result::<(StorageRemovedBytes, StorageRemovedBytes), StorageFlagsError>::Ok((BasicStorageRemoval(removed_key_bytes), BasicStorageRemoval(removed_value_bytes))),
        understood(old(flags)@) ==> r.is_ok() && split_by(parse(old(flags)@)->0, removed_key_bytes, removed_value_bytes, r->Ok_0)
//@ end
}
pub proof fn lemma_product(c: u16, b: u8) ensures 0 <= c * (2 + b) <= 65535 * 257 { assert(0 <= c * (2 + b) <= 65535 * 257) by (nonlinear_arith) requires 0 <= c <= 65535, 0 <= b <= 255; }
// the size estimate: what the encoding takes, when the counts it is given are met
pub open spec fn approx(owned: bool, c: Option<(u16, u8)>) -> int { 3 + (if owned { 32int } else { 0 }) + (match c { Some(x) => x.0 * (2 + x.1), None => 0 }) }
} // verus!
fn main() {}
