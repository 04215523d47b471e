// C29: terminal keys enumerate exactly the leaves of a query. grovedb-query/src/query.rs, query_item/mod.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
pub type Path = Vec<Vec<u8>>;
// an insertion-ordered map, as its list of entries
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
// HashSet<Vec<u8>>
#[verifier::external_body] pub struct KeySet { x: Vec<Vec<u8>> }
impl View for KeySet { type V = Set<Seq<u8>>; uninterp spec fn view(&self) -> Set<Seq<u8>>; }
impl KeySet {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Vec<u8>) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &Vec<u8>) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
#[verifier::external_body] pub fn extend_path(p: &mut Vec<Vec<u8>>, s: &[Vec<u8>]) ensures dv(final(p)@) == dv(old(p)@) + dv(s@) { unimplemented!() }
#[verifier::external_body] pub fn clone_path(p: &Vec<Vec<u8>>) -> (r: Vec<Vec<u8>>) ensures dv(r@) == dv(p@) { unimplemented!() }
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r.is_none(), s@.len() > 0 ==> r.is_some() && *r.unwrap().0 == s@.last() && r.unwrap().1@ == s@.drop_last();
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
//@ rules
Error::$v($x..) ==> err()
*$s.first().unwrap_or_else(|| { keys.push(vec![]); &0 }) ==> match $s.first() { Some(first_byte) => *first_byte, None => { keys.push(Vec::new()); 0u8 } }
for i in start..end { $b.. } ==> let mut j: u16 = start as u16; while j < end as u16 { let i = j as u8; j += 1; $b }
for i in start..=end { $b.. } ==> let mut j: u16 = start as u16; while j <= end as u16 { let i = j as u8; j += 1; $b }
vec![i] ==> one_byte(i)
vec![key.clone()] ==> one_key(clone_of(key))
vec![clone_of(key)] ==> one_key(clone_of(key))
vec![key] ==> one_key(key)
HashSet::new ==> KeySet::new
for ($a, $c) in conditional_subquery_branches { $b.. } ==> let mut ci: usize = 0; while ci < conditional_subquery_branches.e.len() { let ($a, $c) = (&conditional_subquery_branches.e[ci].0, &conditional_subquery_branches.e[ci].1); ci += 1; $b }
for $x in conditional_keys.into_iter() { $b.. } ==> let mut ck: usize = 0; while ck < conditional_keys.len() { let $x = clone_of(&conditional_keys[ck]); ck += 1; $b }
for $x in self.items.iter() { $b.. } ==> let mut ii: usize = 0; while ii < self.items.len() { let $x = &self.items[ii]; ii += 1; $b }
for $x in keys.into_iter() { $b.. } ==> let mut ik: usize = 0; while ik < keys.len() { let $x = clone_of(&keys[ik]); ik += 1; $b }
self.items.iter().any(|item| item.contains(&key)) ==> any_contains(&self.items, &key)
already_added_keys.insert(clone_of(key)) ==> already_added_keys.insert(clone_of(&key))
clone_of(current_path) ==> clone_path(&current_path)
path.extend($s.iter().cloned()) ==> extend_path(&mut path, $s)
subquery_path.split_last() ==> subquery_path.as_slice().split_last()
//@ end
pub fn one_byte(i: u8) -> (r: Vec<u8>) ensures r@ == seq![i] { let mut v = Vec::new(); v.push(i); assert(v@ =~= seq![i]); v }
pub fn one_key(k: Vec<u8>) -> (r: Vec<Vec<u8>>) ensures r@ == seq![k] { let mut v = Vec::new(); v.push(k); assert(v@ =~= seq![k]); v }
pub fn any_contains(items: &Vec<QueryItem>, key: &Vec<u8>) -> (r: bool) ensures r == anysel(items@, key@)
{
    let mut i: usize = 0;
    while i < items.len() invariant i <= items@.len(), forall|k: int| 0 <= k < i ==> !sel(#[trigger] items@[k], key@) decreases items@.len() - i
    { if items[i].contains(key) { return true; } i += 1; }
    false
}
pub open spec fn anysel(s: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && sel(#[trigger] s[i], k) }
// the keys an item enumerates: a key item its key, a bounded range its keys of at most one byte
pub open spec fn en(i: QueryItem, k: Seq<u8>) -> bool { sel(i, k) && (kind(i) == 0 || k.len() <= 1) }
pub open spec fn enumerable(i: QueryItem) -> bool { kind(i) <= 2 && (kind(i) == 0 || match (lo(i), hi(i)) { (Pt::At(a, _), Pt::At(b, _)) => a.len() <= 1 && b.len() == 1, _ => false }) }
pub open spec fn lists(ks: Seq<Vec<u8>>, i: QueryItem) -> bool {
    &&& forall|k: Seq<u8>| #[trigger] en(i, k) == haskey(ks, k)
    &&& forall|a: int, b: int| 0 <= a < b < ks.len() ==> klt((#[trigger] ks[a])@, (#[trigger] ks[b])@)
}
pub open spec fn haskey(ks: Seq<Vec<u8>>, k: Seq<u8>) -> bool { exists|t: int| 0 <= t < ks.len() && (#[trigger] ks[t])@ == k }
pub proof fn one_byte_order(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= 1, b.len() <= 1 ensures klt(a, b) == (if a.len() == 0 { b.len() == 1 } else { b.len() == 1 && a[0] < b[0] }), a.len() == 1 && b.len() == 1 ==> (a == b) == (a[0] == b[0]), a.len() == 0 && b.len() == 0 ==> a == b
{ reveal_with_fuel(klt, 3); if a.len() == 1 && b.len() == 1 && a[0] == b[0] { assert(a =~= b); } if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
// the keys found so far: the empty key if the range starts there, then one key per byte
pub open spec fn upto(ks: Seq<Vec<u8>>, empty: bool, start: int, j: int) -> bool {
    let d: int = if empty { 1 } else { 0 };
    &&& start <= j && ks.len() == d + j - start
    &&& empty ==> ks[0]@.len() == 0
    &&& forall|t: int| d <= t < ks.len() ==> (#[trigger] ks[t])@ == seq![(start + t - d) as u8]
}
pub proof fn upto_lists(ks: Seq<Vec<u8>>, i: QueryItem, s: Seq<u8>, e: Seq<u8>, j: int)
    requires (kind(i) == 1 && lo(i) == Pt::At(s, 0) && hi(i) == Pt::At(e, -1)) || (kind(i) == 2 && lo(i) == Pt::At(s, 0) && hi(i) == Pt::At(e, 0)), s.len() <= 1, e.len() == 1,
        upto(ks, s.len() == 0, if s.len() == 0 { 0 } else { s[0] as int }, j),
        ({ let start = if s.len() == 0 { 0 } else { s[0] as int }; let last = if kind(i) == 1 { e[0] as int } else { e[0] as int + 1 }; j == if start <= last { last } else { start } })
    ensures lists(ks, i)
{
    let start = if s.len() == 0 { 0 } else { s[0] as int }; let d: int = if s.len() == 0 { 1 } else { 0 };
    lemma_sel(i);
    assert forall|k: Seq<u8>| #[trigger] en(i, k) == haskey(ks, k) by {
        if k.len() <= 1 { one_byte_order(s, k); one_byte_order(k, e); one_byte_order(k, s); one_byte_order(e, k); }
        if en(i, k) {
            if k.len() == 0 { assert(ks[0]@ =~= k); } else { let t = d + k[0] - start; assert(ks[t]@ =~= k); }
        }
        if haskey(ks, k) { let t = choose|t: int| 0 <= t < ks.len() && (#[trigger] ks[t])@ == k; if t < d { } else { assert(k[0] == start + t - d); } }
    }
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies klt((#[trigger] ks[a])@, (#[trigger] ks[b])@) by { one_byte_order(ks[a]@, ks[b]@); }
}

impl QueryItem {
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::is_unbounded_range
//@ ret r
//@ spec
  ensures r == (kind(*self) > 2),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::keys
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures r is Ok == enumerable(*self), r is Ok ==> lists(r.unwrap()@, *self),
//@ at start
  proof { order(); lemma_sel(*self); if kind(*self) == 0 { assert forall|v: Vec<u8>| Pt::At(v@, 0) == lo(*self) implies lists(#[trigger] Seq::<Vec<u8>>::empty().push(v), *self) by { let ks = Seq::<Vec<u8>>::empty().push(v); assert(ks[0]@ == v@); assert forall|k: Seq<u8>| #[trigger] en(*self, k) == haskey(ks, k) by { } } } }
  let ghost g = *self;
//@ preloop 1
  let ghost s0 = start;
//@ loop 1
  invariant upto(keys@, self->Range_0.start@.len() == 0, start as int, j as int), j <= if start <= end { end } else { start },
  decreases 256 - j
//@ postloop 1
  proof { upto_lists(keys@, *self, self->Range_0.start@, self->Range_0.end@, j as int); }
//@ loop 2
  invariant upto(keys@, self->RangeInclusive_0.s@.len() == 0, start as int, j as int), j <= if start <= end { end + 1 } else { start as int },
  decreases 257 - j
//@ postloop 2
  proof { upto_lists(keys@, *self, self->RangeInclusive_0.s@, self->RangeInclusive_0.e@, j as int); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::keys_consume
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures r is Ok == enumerable(self), r is Ok ==> lists(r.unwrap()@, self),
//@ at start
  let ghost g = self;
  proof { order(); lemma_sel(self); if kind(self) == 0 { assert forall|v: Vec<u8>| Pt::At(v@, 0) == lo(self) implies lists(#[trigger] Seq::<Vec<u8>>::empty().push(v), g) by { let ks = Seq::<Vec<u8>>::empty().push(v); assert(ks[0]@ == v@); assert forall|k: Seq<u8>| #[trigger] en(self, k) == haskey(ks, k) by { } } } }
  
//@ preloop 1
  let ghost s0 = start;
//@ loop 1
  invariant upto(keys@, g->Range_0.start@.len() == 0, start as int, j as int), j <= if start <= end { end } else { start },
  decreases 256 - j
//@ postloop 1
  proof { upto_lists(keys@, g, g->Range_0.start@, g->Range_0.end@, j as int); }
//@ loop 2
  invariant upto(keys@, g->RangeInclusive_0.s@.len() == 0, start as int, j as int), j <= if start <= end { end + 1 } else { start as int },
  decreases 257 - j
//@ postloop 2
  proof { upto_lists(keys@, g, g->RangeInclusive_0.s@, g->RangeInclusive_0.e@, j as int); }
//@ end
}

//@ type grovedb-query/src/subquery_branch.rs SubqueryBranch
//@ type grovedb-query/src/query.rs Query

// ---- the leaves of a query ----------------------------------------------------
pub type Leaf = (Seq<Seq<u8>>, Seq<u8>);
pub type Out = Seq<(Vec<Vec<u8>>, Vec<u8>)>;
pub open spec fn conds(q: Query) -> Seq<(QueryItem, SubqueryBranch)> { match q.conditional_subquery_branches { None => Seq::empty(), Some(m) => m.e@ } }
// the branch a selected key falls under: the first condition matching it, else the default
pub open spec fn taken(s: Seq<(QueryItem, SubqueryBranch)>, k: Seq<u8>, d: SubqueryBranch) -> SubqueryBranch
    decreases s.len()
{ if s.len() == 0 { d } else if sel(s[0].0, k) { s[0].1 } else { taken(s.drop_first(), k, d) } }
pub open spec fn incond(s: Seq<(QueryItem, SubqueryBranch)>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && en((#[trigger] s[i]).0, k) }
pub open spec fn initem(s: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && en(#[trigger] s[i], k) }
// keys of this level: those an item lists, and those a condition lists and an item selects
pub open spec fn level(q: Query, k: Seq<u8>) -> bool { initem(q.items@, k) || (anysel(q.items@, k) && incond(conds(q), k)) }
pub open spec fn below(b: SubqueryBranch, path: Seq<Seq<u8>>, k: Seq<u8>, x: Leaf, fuel: nat) -> bool
    decreases fuel, 0nat
{
    match (b.subquery_path, b.subquery) {
        (None, None) => x == (path, k),
        (None, Some(sub)) => fuel > 0 && leaf(*sub, path.push(k), x, (fuel - 1) as nat),
        (Some(sp), None) => sp@.len() > 0 && x == (path.push(k) + dv(sp@.drop_last()), sp@.last()@),
        (Some(sp), Some(sub)) => fuel > 0 && leaf(*sub, path.push(k) + dv(sp@), x, (fuel - 1) as nat),
    }
}
pub open spec fn leaf(q: Query, path: Seq<Seq<u8>>, x: Leaf, fuel: nat) -> bool
    decreases fuel, 1nat
{ exists|k: Seq<u8>| #[trigger] level(q, k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel) }
// every item and condition visited can be enumerated
pub open spec fn lf(e: (Vec<Vec<u8>>, Vec<u8>)) -> Leaf { (dv(e.0@), e.1@) }
pub open spec fn has(r: Out, from: int, x: Leaf) -> bool { exists|i: int| from <= i < r.len() && lf(#[trigger] r[i]) == x }
pub open spec fn keeps(a: Out, b: Out) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
// what has been output once the keys of `s` are done
#[verifier::opaque]
pub open spec fn done(q: Query, path: Seq<Seq<u8>>, fuel: nat, r: Out, from: int, s: Set<Seq<u8>>) -> bool
{ forall|x: Leaf| #[trigger] has(r, from, x) == exists|k: Seq<u8>| #[trigger] s.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel) }
pub proof fn done_start(q: Query, path: Seq<Seq<u8>>, fuel: nat, r: Out, s: Set<Seq<u8>>)
    requires s == Set::<Seq<u8>>::empty() ensures done(q, path, fuel, r, r.len() as int, s) { reveal(done); }
pub proof fn done_step(q: Query, path: Seq<Seq<u8>>, fuel: nat, r: Out, from: int, s: Set<Seq<u8>>, k: Seq<u8>, r2: Out)
    requires done(q, path, fuel, r, from, s), keeps(r, r2), 0 <= from <= r.len(),
        forall|x: Leaf| #[trigger] has(r2, r.len() as int, x) == below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel)
    ensures done(q, path, fuel, r2, from, s.insert(k))
{
    reveal(done);
    let t = s.insert(k); let b = taken(conds(q), k, q.default_subquery_branch);
    assert forall|x: Leaf| #[trigger] has(r2, from, x) == exists|k: Seq<u8>| #[trigger] t.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel) by {
        if has(r2, from, x) {
            let i = choose|i: int| from <= i < r2.len() && lf(#[trigger] r2[i]) == x;
            if i < r.len() { assert(r2[i] == r[i]); assert(lf(r[i]) == x); assert(has(r, from, x)); let k2 = choose|k: Seq<u8>| #[trigger] s.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel); assert(t.contains(k2)); }
            else { assert(has(r2, r.len() as int, x)); assert(t.contains(k)); }
        }
        if exists|k: Seq<u8>| #[trigger] t.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel) {
            let k2 = choose|k: Seq<u8>| #[trigger] t.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel);
            if k2 == k { assert(has(r2, r.len() as int, x)); let i = choose|i: int| r.len() <= i < r2.len() && lf(#[trigger] r2[i]) == x; assert(lf(r2[i]) == x); }
            else { assert(s.contains(k2)); assert(has(r, from, x)); let i = choose|i: int| from <= i < r.len() && lf(#[trigger] r[i]) == x; assert(from <= i < r.len()); assert(lf(r[i]) == x); assert(r2[i] == r[i]); assert(lf(r2[i]) == lf(r[i])); assert(lf(r2[i]) == x); }
        }
    }
}
pub proof fn done_end(q: Query, path: Seq<Seq<u8>>, fuel: nat, r: Out, from: int, s: Set<Seq<u8>>)
    requires done(q, path, fuel, r, from, s), forall|k: Seq<u8>| #[trigger] s.contains(k) == level(q, k) ensures forall|x: Leaf| #[trigger] has(r, from, x) == leaf(q, path, x, fuel)
{
    reveal(done);
    assert forall|x: Leaf| #[trigger] has(r, from, x) == leaf(q, path, x, fuel) by {
        if leaf(q, path, x, fuel) { let k = choose|k: Seq<u8>| #[trigger] level(q, k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel); assert(s.contains(k)); }
        if has(r, from, x) { let k = choose|k: Seq<u8>| #[trigger] s.contains(k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel); assert(level(q, k)); }
    }
}
// one more output entry
pub proof fn has_push(r: Out, e: (Vec<Vec<u8>>, Vec<u8>)) ensures keeps(r, r.push(e)), forall|x: Leaf| #[trigger] has(r.push(e), r.len() as int, x) == (x == lf(e))
{ let t = r.push(e); assert(t[r.len() as int] == e); assert forall|x: Leaf| #[trigger] has(t, r.len() as int, x) == (x == lf(e)) by { if x == lf(e) { assert(lf(t[r.len() as int]) == x); } } }
// the condition being visited is the first that matches the key
pub proof fn taken_at(s: Seq<(QueryItem, SubqueryBranch)>, n: int, k: Seq<u8>, d: SubqueryBranch)
    requires 0 <= n < s.len(), sel(s[n].0, k), forall|i: int| 0 <= i < n ==> !sel((#[trigger] s[i]).0, k) ensures taken(s, k, d) == s[n].1 decreases s.len()
{ if n > 0 { assert(!sel(s[0].0, k)); assert forall|i: int| 0 <= i < n - 1 implies !sel((#[trigger] s.drop_first()[i]).0, k) by { assert(s.drop_first()[i] == s[i + 1]); } assert(s.drop_first()[n - 1] == s[n]); taken_at(s.drop_first(), n - 1, k, d); } }
pub proof fn taken_none(s: Seq<(QueryItem, SubqueryBranch)>, k: Seq<u8>, d: SubqueryBranch)
    requires forall|i: int| 0 <= i < s.len() ==> !sel((#[trigger] s[i]).0, k) ensures taken(s, k, d) == d decreases s.len()
{ if s.len() > 0 { assert(!sel(s[0].0, k)); assert forall|i: int| 0 <= i < s.len() - 1 implies !sel((#[trigger] s.drop_first()[i]).0, k) by { assert(s.drop_first()[i] == s[i + 1]); } taken_none(s.drop_first(), k, d); } }
pub open spec fn conds_upto(s: Seq<(QueryItem, SubqueryBranch)>, n: int, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && en((#[trigger] s[i]).0, k) }
pub open spec fn items_upto(s: Seq<QueryItem>, n: int, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < n && en(#[trigger] s[i], k) }
pub open spec fn keys_upto(ks: Seq<Vec<u8>>, n: int, k: Seq<u8>) -> bool { exists|t: int| 0 <= t < n && (#[trigger] ks[t])@ == k }
pub proof fn keys_next(ks: Seq<Vec<u8>>, n: int) requires 0 <= n < ks.len() ensures forall|k: Seq<u8>| #[trigger] keys_upto(ks, n + 1, k) == (keys_upto(ks, n, k) || k == ks[n]@)
{ assert forall|k: Seq<u8>| #[trigger] keys_upto(ks, n + 1, k) == (keys_upto(ks, n, k) || k == ks[n]@) by { if keys_upto(ks, n + 1, k) { let t = choose|t: int| 0 <= t < n + 1 && (#[trigger] ks[t])@ == k; if t < n { assert(keys_upto(ks, n, k)); } } } }
pub proof fn conds_next(s: Seq<(QueryItem, SubqueryBranch)>, n: int) requires 0 <= n < s.len() ensures forall|k: Seq<u8>| #[trigger] conds_upto(s, n + 1, k) == (conds_upto(s, n, k) || en(s[n].0, k))
{ assert forall|k: Seq<u8>| #[trigger] conds_upto(s, n + 1, k) == (conds_upto(s, n, k) || en(s[n].0, k)) by { if conds_upto(s, n + 1, k) { let t = choose|t: int| 0 <= t < n + 1 && en((#[trigger] s[t]).0, k); if t < n { assert(conds_upto(s, n, k)); } } } }
pub proof fn items_next(s: Seq<QueryItem>, n: int) requires 0 <= n < s.len() ensures forall|k: Seq<u8>| #[trigger] items_upto(s, n + 1, k) == (items_upto(s, n, k) || en(s[n], k))
{ assert forall|k: Seq<u8>| #[trigger] items_upto(s, n + 1, k) == (items_upto(s, n, k) || en(s[n], k)) by { if items_upto(s, n + 1, k) { let t = choose|t: int| 0 <= t < n + 1 && en(#[trigger] s[t], k); if t < n { assert(items_upto(s, n, k)); } } } }

// ---- each once ------------------------------------------------------------------
// a query whose items do not overlap, at every level down to `fuel`
pub open spec fn apart(s: Seq<QueryItem>) -> bool { forall|i: int, j: int, k: Seq<u8>| 0 <= i < j < s.len() && #[trigger] sel(s[i], k) ==> !(#[trigger] sel(s[j], k)) }
pub open spec fn proper(q: Query, fuel: nat) -> bool
    decreases fuel
{
    &&& apart(q.items@)
    &&& fuel > 0 ==> match q.default_subquery_branch.subquery { Some(sub) => proper(*sub, (fuel - 1) as nat), None => true }
    &&& fuel > 0 ==> forall|i: int| 0 <= i < conds(q).len() ==> match (#[trigger] conds(q)[i]).1.subquery { Some(sub) => proper(*sub, (fuel - 1) as nat), None => true }
}
pub open spec fn properb(b: SubqueryBranch, fuel: nat) -> bool { fuel > 0 ==> match b.subquery { Some(sub) => proper(*sub, (fuel - 1) as nat), None => true } }
pub proof fn proper_taken(s: Seq<(QueryItem, SubqueryBranch)>, k: Seq<u8>, d: SubqueryBranch, fuel: nat)
    requires properb(d, fuel), forall|i: int| 0 <= i < s.len() ==> properb((#[trigger] s[i]).1, fuel) ensures properb(taken(s, k, d), fuel) decreases s.len()
{ if s.len() > 0 && !sel(s[0].0, k) { assert forall|i: int| 0 <= i < s.len() - 1 implies properb((#[trigger] s.drop_first()[i]).1, fuel) by { assert(s.drop_first()[i] == s[i + 1]); } proper_taken(s.drop_first(), k, d, fuel); } else if s.len() > 0 { assert(properb(s[0].1, fuel)); } }
pub open spec fn nodup(r: Out, from: int) -> bool { forall|i: int, j: int| from <= i < j < r.len() ==> lf(#[trigger] r[i]) != lf(#[trigger] r[j]) }
pub open spec fn pre(p: Seq<Seq<u8>>, t: Seq<Seq<u8>>) -> bool { p.len() <= t.len() && t.take(p.len() as int) =~= p }
// where the leaves below one key lie
pub open spec fn inreg(path: Seq<Seq<u8>>, k: Seq<u8>, x: Leaf) -> bool { x == (path, k) || pre(path.push(k), x.0) }
pub proof fn leaf_pre(q: Query, path: Seq<Seq<u8>>, x: Leaf, fuel: nat)
    requires leaf(q, path, x, fuel) ensures pre(path, x.0) decreases fuel, 1nat
{
    let k = choose|k: Seq<u8>| #[trigger] level(q, k) && below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel);
    below_reg(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel);
    if x != (path, k) { assert(path.push(k).take(path.len() as int) =~= path); assert(x.0.take(path.len() as int) =~= x.0.take(path.len() as int + 1).take(path.len() as int)); } else { assert(path.take(path.len() as int) =~= path); }
}
pub proof fn below_reg(b: SubqueryBranch, path: Seq<Seq<u8>>, k: Seq<u8>, x: Leaf, fuel: nat)
    requires below(b, path, k, x, fuel) ensures inreg(path, k, x) decreases fuel, 0nat
{
    let p = path.push(k);
    match (b.subquery_path, b.subquery) {
        (None, None) => { }
        (None, Some(sub)) => { leaf_pre(*sub, p, x, (fuel - 1) as nat); }
        (Some(sp), None) => { assert((p + dv(sp@.drop_last())).take(p.len() as int) =~= p); }
        (Some(sp), Some(sub)) => { let t = p + dv(sp@); leaf_pre(*sub, t, x, (fuel - 1) as nat); assert(t.take(p.len() as int) =~= p); assert(x.0.take(p.len() as int) =~= x.0.take(t.len() as int).take(p.len() as int)); }
    }
}
pub proof fn reg_apart(path: Seq<Seq<u8>>, k: Seq<u8>, l: Seq<u8>, x: Leaf) requires inreg(path, k, x), inreg(path, l, x) ensures k == l
{
    let n = path.len() as int;
    if pre(path.push(k), x.0) { assert(path.push(k)[n] == k); assert(x.0[n] == k); if pre(path.push(l), x.0) { assert(path.push(l)[n] == l); } else { assert(x.0.len() == n); } }
    else if pre(path.push(l), x.0) { assert(x.0.len() == n); }
}
pub proof fn nodup_step(q: Query, path: Seq<Seq<u8>>, fuel: nat, r: Out, from: int, s: Set<Seq<u8>>, k: Seq<u8>, r2: Out)
    requires done(q, path, fuel, r, from, s), keeps(r, r2), 0 <= from <= r.len(), !s.contains(k), nodup(r, from), nodup(r2, r.len() as int),
        forall|x: Leaf| #[trigger] has(r2, r.len() as int, x) == below(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel)
    ensures nodup(r2, from)
{
    reveal(done);
    assert forall|i: int, j: int| from <= i < j < r2.len() implies lf(#[trigger] r2[i]) != lf(#[trigger] r2[j]) by {
        if j < r.len() { assert(r2[i] == r[i] && r2[j] == r[j]); }
        else if i < r.len() && lf(r2[i]) == lf(r2[j]) {
            let x = lf(r2[j]);
            assert(has(r2, r.len() as int, x)); below_reg(taken(conds(q), k, q.default_subquery_branch), path, k, x, fuel);
            assert(lf(r[i]) == x); assert(has(r, from, x));
            let l = choose|l: Seq<u8>| #[trigger] s.contains(l) && below(taken(conds(q), l, q.default_subquery_branch), path, l, x, fuel);
            below_reg(taken(conds(q), l, q.default_subquery_branch), path, l, x, fuel); reg_apart(path, k, l, x);
        }
    }
}
// a key listed by one item is listed by no other, and once by it
pub proof fn fresh_key(q: Query, n: int, ks: Seq<Vec<u8>>, m: int)
    requires apart(q.items@), 0 <= n < q.items@.len(), lists(ks, q.items@[n]), 0 <= m < ks.len() ensures !items_upto(q.items@, n, ks[m]@), !keys_upto(ks, m, ks[m]@)
{
    let k = ks[m]@; assert(haskey(ks, k)); assert(en(q.items@[n], k));
    if items_upto(q.items@, n, k) { let i = choose|i: int| 0 <= i < n && en(#[trigger] q.items@[i], k); assert(sel(q.items@[i], k) && sel(q.items@[n], k)); }
    if keys_upto(ks, m, k) { let t = choose|t: int| 0 <= t < m && (#[trigger] ks[t])@ == k; assert(klt(ks[t]@, ks[m]@)); klt_irr(k); }
}

impl Query {
//@ const grovedb-query/src/query.rs Query::MAX_TERMINAL_KEYS_DEPTH
//@ fn grovedb-query/src/query.rs Query::subquery_branch_for_key
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures *r == taken(conds(*self), key@, self.default_subquery_branch),
//@ loop 1
  invariant ci <= conds(*self).len(), conds(*self) == conditional_subquery_branches.e@, forall|i: int| 0 <= i < ci ==> !sel((#[trigger] conds(*self)[i]).0, key@),
  decreases conds(*self).len() - ci
//@ before return subquery_branch;
  proof { taken_at(conds(*self), ci - 1, key@, self.default_subquery_branch); }
//@ before &self.default_subquery_branch
  proof { taken_none(conds(*self), key@, self.default_subquery_branch); }
//@ end
//@ fn grovedb-query/src/query.rs Query::terminal_keys_inner
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures
    r is Ok ==> keeps(old(result)@, final(result)@) && final(result)@.len() == old(result)@.len() + r.unwrap(),
    r is Ok ==> forall|x: Leaf| #[trigger] has(final(result)@, old(result)@.len() as int, x) == leaf(*self, dv(current_path@), x, (64 - depth) as nat),
    r is Ok && proper(*self, (64 - depth) as nat) ==> nodup(final(result)@, old(result)@.len() as int),
    r is Ok && old(result)@.len() <= max_results ==> final(result)@.len() <= max_results,
    r is Ok ==> depth < 64 && (forall|i: int| 0 <= i < self.items@.len() ==> enumerable(#[trigger] self.items@[i])) && (forall|i: int| 0 <= i < conds(*self).len() ==> enumerable((#[trigger] conds(*self)[i]).0)),
  decreases 64 - depth
//@ before let mut current_len $x..;
  let ghost r0 = result@; let ghost from = result@.len() as int; let ghost path0 = dv(current_path@); let ghost fuel = (64 - depth) as nat; let ghost q = *self; let ghost cs = conds(*self);
  let ghost mut seen: Set<Seq<u8>> = Set::empty();
  let ghost good = proper(*self, fuel);
  proof { done_start(q, path0, fuel, r0, seen); assert(good ==> nodup(result@, from)); if good { assert(properb(q.default_subquery_branch, fuel)); assert forall|i: int| 0 <= i < cs.len() implies properb((#[trigger] cs[i]).1, fuel) by { } } }
//@ loop 1
  invariant current_len == result@.len(), keeps(r0, result@), good ==> nodup(result@, from), added == result@.len() - from, r0.len() <= max_results ==> current_len <= max_results,
    ci <= cs.len(), cs == conditional_subquery_branches.e@, done(q, path0, fuel, result@, from, seen), seen == already_added_keys@,
    forall|k: Seq<u8>| #[trigger] seen.contains(k) == (anysel(q.items@, k) && conds_upto(cs, ci as int, k)),
    forall|i: int| 0 <= i < ci ==> enumerable((#[trigger] cs[i]).0),
  decreases cs.len() - ci
//@ loop 2
  invariant current_len == result@.len(), keeps(r0, result@), good ==> nodup(result@, from), added == result@.len() - from, r0.len() <= max_results ==> current_len <= max_results,
    ck <= conditional_keys@.len(), done(q, path0, fuel, result@, from, seen), seen == already_added_keys@,
    forall|k: Seq<u8>| #[trigger] seen.contains(k) == (anysel(q.items@, k) && (conds_upto(cs, ci - 1, k) || keys_upto(conditional_keys@, ck as int, k))),
  decreases conditional_keys@.len() - ck
//@ loopstart 2
  let ghost rb = result@; let ghost seen0 = seen; let ghost kk = conditional_keys@[ck as int]@; 
  proof {
    keys_next(conditional_keys@, ck as int);
    assert(haskey(conditional_keys@, kk)); assert(en(cs[ci - 1].0, kk));
    if anysel(q.items@, kk) { seen = seen.insert(kk); }
    if seen0.contains(kk) { assert(seen0.insert(kk) =~= seen0); }
    if good { proper_taken(cs, kk, q.default_subquery_branch, fuel); }
  }
//@ after #all path.push(key);
  proof { assert(dv(path@) =~= path0.push(kk)); }
//@ after #all result.push($x..);
  proof { assert(result@ =~= rb.push(result@.last())); has_push(rb, result@.last()); }
//@ loopend 2
  proof { done_step(q, path0, fuel, rb, from, seen0, kk, result@); if good { assert(!seen0.contains(kk)); assert(nodup(result@, rb.len() as int)); nodup_step(q, path0, fuel, rb, from, seen0, kk, result@); } }
//@ loopend 1
  proof {
    conds_next(cs, ci - 1);
    assert forall|k: Seq<u8>| #[trigger] keys_upto(conditional_keys@, conditional_keys@.len() as int, k) == en(cs[ci - 1].0, k) by { assert(keys_upto(conditional_keys@, conditional_keys@.len() as int, k) == haskey(conditional_keys@, k)); }
  }
//@ preloop 3
  let ghost already = already_added_keys@;
//@ loop 3
  invariant current_len == result@.len(), keeps(r0, result@), good ==> nodup(result@, from), added == result@.len() - from, r0.len() <= max_results ==> current_len <= max_results,
    ii <= self.items@.len(), done(q, path0, fuel, result@, from, seen), already == already_added_keys@,
    forall|k: Seq<u8>| #[trigger] already.contains(k) == (anysel(q.items@, k) && incond(cs, k)),
    forall|k: Seq<u8>| #[trigger] seen.contains(k) == (already.contains(k) || items_upto(q.items@, ii as int, k)),
    forall|i: int| 0 <= i < ii ==> enumerable(#[trigger] q.items@[i]),
  decreases self.items@.len() - ii
//@ loop 4
  invariant current_len == result@.len(), keeps(r0, result@), good ==> nodup(result@, from), added == result@.len() - from, r0.len() <= max_results ==> current_len <= max_results,
    ik <= keys@.len(), done(q, path0, fuel, result@, from, seen), already == already_added_keys@,
    forall|k: Seq<u8>| #[trigger] seen.contains(k) == (already.contains(k) || items_upto(q.items@, ii - 1, k) || keys_upto(keys@, ik as int, k)),
  decreases keys@.len() - ik
//@ loopstart 4
  let ghost rb = result@; let ghost seen0 = seen; let ghost kk = keys@[ik as int]@; 
  proof {
    keys_next(keys@, ik as int);
    assert(haskey(keys@, kk)); assert(en(q.items@[ii - 1], kk)); assert(anysel(q.items@, kk)) by { assert(sel(q.items@[ii - 1], kk)); }
    seen = seen.insert(kk);
    if already.contains(kk) { assert(seen0.contains(kk)); assert(seen0.insert(kk) =~= seen0); }
    if good { proper_taken(cs, kk, q.default_subquery_branch, fuel); fresh_key(q, ii - 1, keys@, ik as int); }
  }
//@ loopend 4
  proof { done_step(q, path0, fuel, rb, from, seen0, kk, result@); if good { assert(!seen0.contains(kk)); assert(nodup(result@, rb.len() as int)); nodup_step(q, path0, fuel, rb, from, seen0, kk, result@); } }
//@ loopend 3
  proof {
    items_next(q.items@, ii - 1);
    assert forall|k: Seq<u8>| #[trigger] keys_upto(keys@, keys@.len() as int, k) == en(q.items@[ii - 1], k) by { assert(keys_upto(keys@, keys@.len() as int, k) == haskey(keys@, k)); }
  }
//@ postloop 3
  proof { assert forall|k: Seq<u8>| #[trigger] seen.contains(k) == level(q, k) by { assert(items_upto(q.items@, q.items@.len() as int, k) == initem(q.items@, k)); } done_end(q, path0, fuel, result@, from, seen); }
//@ end
//@ fn grovedb-query/src/query.rs Query::terminal_keys
//@ ret r
//@ spec
  ensures
    r is Ok ==> keeps(old(result)@, final(result)@) && final(result)@.len() == old(result)@.len() + r.unwrap(),
    r is Ok ==> forall|x: Leaf| #[trigger] has(final(result)@, old(result)@.len() as int, x) == leaf(*self, dv(current_path@), x, 64),
    r is Ok && proper(*self, 64) ==> nodup(final(result)@, old(result)@.len() as int),
    r is Ok && old(result)@.len() <= max_results ==> final(result)@.len() <= max_results,
    r is Ok ==> (forall|i: int| 0 <= i < self.items@.len() ==> enumerable(#[trigger] self.items@[i])) && (forall|i: int| 0 <= i < conds(*self).len() ==> enumerable((#[trigger] conds(*self)[i]).0)),
//@ end
}
} // verus!
fn main() {}
