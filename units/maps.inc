// trusted: the maps of the standard library and the intmap crate
pub type Identifier = [u8; 32];
//@ const costs/src/storage_cost/removal.rs UNKNOWN_EPOCH

// ---- trusted: the maps of the standard library and the intmap crate --------
#[verifier::external_body]
pub struct IntMap { x: usize }
impl View for IntMap { type V = Map<u16, u32>; uninterp spec fn view(&self) -> Map<u16, u32>; }
impl IntMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u16, u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u16, v: u32) -> (r: Option<u32>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: u16) -> (r: bool) ensures r == self@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: u16) -> (r: Option<u32>)
        ensures final(self)@ == old(self)@.remove(k), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
}
#[verifier::external_body]
pub struct SecMap { x: usize }
pub type StorageRemovalPerEpochByIdentifier = SecMap;
impl View for SecMap { type V = Map<Identifier, Map<u16, u32>>; uninterp spec fn view(&self) -> Map<Identifier, Map<u16, u32>>; }
impl SecMap {
    #[verifier::external_body] pub fn contains_key(&self, k: &Identifier) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Identifier, v: IntMap) -> (r: Option<IntMap>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Identifier) -> (r: Option<IntMap>)
        ensures final(self)@ == old(self)@.remove(*k),
            r.is_some() == old(self)@.dom().contains(*k), r.is_some() ==> r->0@ == old(self)@[*k] { unimplemented!() }
}
pub uninterp spec fn zero_id() -> Identifier;
#[verifier::external_body] pub fn identifier_default() -> (r: Identifier) ensures r == zero_id() { unimplemented!() }
#[verifier::external_body] pub fn intmap_or_default(o: Option<IntMap>) -> (r: IntMap)
    ensures r@ == (if o.is_some() { o->0@ } else { Map::<u16, u32>::empty() }) { unimplemented!() }
// consuming iteration: every entry exactly once, in an unspecified order
impl IntMap {
    #[verifier::external_body] pub fn into_list(self) -> (r: Vec<(u16, u32)>)
        ensures
            forall|a: int, b: int| 0 <= a < b < r@.len() ==> r@[a].0 != r@[b].0,
            forall|a: int| 0 <= a < r@.len() ==> self@.dom().contains(#[trigger] r@[a].0) && self@[r@[a].0] == r@[a].1,
            forall|e: u16| #[trigger] self@.dom().contains(e) ==> has_e(r@, e) { unimplemented!() }
    // a.into_iter().chain(b).collect(): entries of b replace entries of a with the same key
    #[verifier::external_body] pub fn chained(self, b: IntMap) -> (r: IntMap) ensures r@ == self@.union_prefer_right(b@) { unimplemented!() }
}
impl SecMap {
    #[verifier::external_body] pub fn into_list(self) -> (r: Vec<(Identifier, IntMap)>)
        ensures
            forall|a: int, b: int| 0 <= a < b < r@.len() ==> r@[a].0 != r@[b].0,
            forall|a: int| 0 <= a < r@.len() ==> self@.dom().contains(#[trigger] r@[a].0) && self@[r@[a].0] == r@[a].1@,
            forall|i: Identifier| #[trigger] self@.dom().contains(i) ==> has_i(r@, i) { unimplemented!() }
}
pub open spec fn has_e(l: Seq<(u16, u32)>, e: u16) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] l[j].0 == e }
pub open spec fn has_i(l: Seq<(Identifier, IntMap)>, i: Identifier) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] l[j].0 == i }
pub open spec fn get(m: Map<u16, u32>, e: u16) -> int { if m.dom().contains(e) { m[e] as int } else { 0 } }
pub proof fn lemma_pop_e(l: Seq<(u16, u32)>, l2: Seq<(u16, u32)>)
    requires l.len() > 0, l2 == l.drop_last(), forall|a: int, b: int| 0 <= a < b < l.len() ==> l[a].0 != l[b].0
    ensures forall|e: u16| #[trigger] has_e(l2, e) == (has_e(l, e) && e != l.last().0)
{
    assert forall|e: u16| #[trigger] has_e(l2, e) == (has_e(l, e) && e != l.last().0) by {
        if has_e(l2, e) { let j = choose|j: int| 0 <= j < l2.len() && #[trigger] l2[j].0 == e; assert(l[j].0 == e); }
        if has_e(l, e) && e != l.last().0 { let j = choose|j: int| 0 <= j < l.len() && #[trigger] l[j].0 == e; assert(l2[j].0 == e); }
    }
}
pub proof fn lemma_pop_i(l: Seq<(Identifier, IntMap)>, l2: Seq<(Identifier, IntMap)>)
    requires l.len() > 0, l2 == l.drop_last(), forall|a: int, b: int| 0 <= a < b < l.len() ==> l[a].0 != l[b].0
    ensures forall|e: Identifier| #[trigger] has_i(l2, e) == (has_i(l, e) && e != l.last().0)
{
    assert forall|e: Identifier| #[trigger] has_i(l2, e) == (has_i(l, e) && e != l.last().0) by {
        if has_i(l2, e) { let j = choose|j: int| 0 <= j < l2.len() && #[trigger] l2[j].0 == e; assert(l[j].0 == e); }
        if has_i(l, e) && e != l.last().0 { let j = choose|j: int| 0 <= j < l.len() && #[trigger] l[j].0 == e; assert(l2[j].0 == e); }
    }
}

//@ type costs/src/storage_cost/removal.rs StorageRemovedBytes
use StorageRemovedBytes::*;
