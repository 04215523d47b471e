// trusted: BTreeMap<u16, u32>, ordered map with ascending iteration
#[verifier::external_body]
pub struct EMap { x: usize }
impl View for EMap { type V = Map<u16, u32>; uninterp spec fn view(&self) -> Map<u16, u32>; }
// the entries in ascending key order
pub uninterp spec fn entries(m: Map<u16, u32>) -> Seq<(u16, u32)>;
pub open spec fn entries_ok(s: Seq<(u16, u32)>, m: Map<u16, u32>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a].0 < s[b].0
    &&& forall|a: int| 0 <= a < s.len() ==> m.dom().contains(#[trigger] s[a].0) && m[s[a].0] == s[a].1
    &&& forall|e: u16| #[trigger] m.dom().contains(e) ==> has_e(s, e)
}
pub axiom fn axiom_entries(m: Map<u16, u32>) ensures entries_ok(entries(m), m);
pub open spec fn distinct(l: Seq<(u16, u32)>) -> bool { forall|a: int, b: int| 0 <= a < b < l.len() ==> l[a].0 != l[b].0 }
pub open spec fn sublist(l: Seq<(u16, u32)>, m: Map<u16, u32>) -> bool { forall|a: int| 0 <= a < l.len() ==> m.dom().contains(#[trigger] l[a].0) && m[l[a].0] == l[a].1 }
impl EMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u16, u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u16, v: u32) -> (r: Option<u32>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &u16) -> (r: Option<&u32>) ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &u16) -> (r: Option<u32>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<u16, u32>::empty()) { unimplemented!() }
    // iteration in unspecified order
    #[verifier::external_body] pub fn entries_list(&self) -> (r: Vec<(u16, u32)>)
        ensures distinct(r@), sublist(r@, self@), forall|e: u16| #[trigger] self@.dom().contains(e) ==> has_e(r@, e) { unimplemented!() }
    #[verifier::external_body] pub fn rev_iter<'a>(&'a self) -> (r: RevIter<'a>) ensures r@ == entries(self@) { unimplemented!() }
}
impl IntMap {
    #[verifier::external_body] pub fn entries_list(&self) -> (r: Vec<(u16, u32)>)
        ensures distinct(r@), sublist(r@, self@), forall|e: u16| #[trigger] self@.dom().contains(e) ==> has_e(r@, e) { unimplemented!() }
}
impl SecMap {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Identifier, Map<u16, u32>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Identifier) -> (r: Option<&IntMap>) ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> r->0@ == self@[*k] { unimplemented!() }
}
#[verifier::external_body]
pub struct RevIter<'a> { x: &'a EMap }
impl<'a> View for RevIter<'a> { type V = Seq<(u16, u32)>; uninterp spec fn view(&self) -> Seq<(u16, u32)>; }
impl<'a> RevIter<'a> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a u16, &'a u32)>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r.is_some() && *r.unwrap().0 == old(self)@.last().0 && *r.unwrap().1 == old(self)@.last().1 && final(self)@ == old(self)@.drop_last() { unimplemented!() }
}
#[verifier::external_body] pub fn emap_or_default(o: Option<EMap>) -> (r: EMap) ensures r@ == (if o.is_some() { o->0@ } else { Map::<u16, u32>::empty() }) { unimplemented!() }
#[verifier::external_body] pub fn clone_opt(o: Option<&EMap>) -> (r: Option<EMap>) ensures r.is_some() == o.is_some(), r.is_some() ==> r->0@ == o->0@ { unimplemented!() }
