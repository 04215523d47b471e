// C20: merging a conditional subquery acts pointwise per key. grovedb-query/src/merge.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

pub open spec fn fresh(s: Seq<(QueryItem, SubqueryBranch)>, k: QueryItem) -> bool { forall|i: int| 0 <= i < s.len() ==> !same((#[trigger] s[i]).0, k) }
// ---- trusted stand-ins --------------------------------------------------------
pub type Path = Vec<Vec<u8>>;
// what the subquery of a branch is; merging two branches is some function of them

pub struct SubqueryBranch { pub subquery_path: Option<Path>, pub subquery: Option<QueryRest2> }
#[verifier::external_body] pub struct QueryRest2 { x: u8 }
pub uninterp spec fn merged(a: SubqueryBranch, b: SubqueryBranch) -> SubqueryBranch;
#[verifier::external_body] pub fn merge_branches(a: &SubqueryBranch, b: &SubqueryBranch) -> (r: SubqueryBranch) ensures r == merged(*a, *b) { unimplemented!() }
// an insertion-ordered map, as its list of entries: inserting under a new key appends
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { x: Vec<(K, V)> }
impl<K, V> View for IndexMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
impl IndexMap<QueryItem, SubqueryBranch> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: QueryItem, v: SubqueryBranch) -> (r: Option<SubqueryBranch>)
        ensures fresh(old(self)@, k) ==> final(self)@ == old(self)@.push((k, v)) { unimplemented!() }
}
#[verifier::external_body] pub fn entries<K, V>(m: IndexMap<K, V>) -> (r: Vec<(K, V)>) ensures r@ == m@ { unimplemented!() }
//@ rules
for ($ci, $cb) in conditional_subquery_branches { $b.. } ==> let es = entries(conditional_subquery_branches); let mut ei: usize = 0; while ei < es.len() { let ($ci, $cb) = clone_of(&es[ei]); ei += 1; $b }
for $x in sub_query_items_merging_in_vec { let $b.. } ==> let mut k: usize = 0; while k < sub_query_items_merging_in_vec.len() { let $x = clone_of(&sub_query_items_merging_in_vec[k]); k += 1; let $b }
for $x in sub_query_items_merging_in_vec { merged_items $b.. } ==> let mut k2: usize = 0; while k2 < sub_query_items_merging_in_vec.len() { let $x = clone_of(&sub_query_items_merging_in_vec[k2]); k2 += 1; merged_items $b }
subquery_branch.merge(&$x) ==> merge_branches(&subquery_branch, &$x)
clone_of(subquery_branch) ==> clone_of(&subquery_branch)
clone_of(subquery_branch_merging_in) ==> clone_of(&subquery_branch_merging_in)
self.conditional_subquery_branches.take() ==> take_branches(&mut self.conditional_subquery_branches)
Box<Query> ==> QueryRest2
QueryItemManyIntersectionResult::default() ==> no_parts()
let $v = self.$f.get_or_insert(vec![]); $v.push($x..); ==> push_opt(&mut self.$f, $x);
let $v = self.$f.get_or_insert(vec![]); $v.append(&mut $x); ==> append_opt(&mut self.$f, &mut $x);
for our_item in ours.drain(..) { $b.. } ==> let drained = drain_all(ours); let mut oi: usize = 0; while oi < drained.len() { let our_item = clone_of(&drained[oi]); oi += 1; $b }
for their_item in clone_of(theirs) { $b.. } ==> let mut ti: usize = 0; while ti < theirs.len() { let their_item = clone_of(&theirs[ti]); ti += 1; $b }
for our_partial_item in our_item_split_sections { $b.. } ==> let mut si: usize = 0; while si < our_item_split_sections.len() { let our_partial_item = clone_of(&our_item_split_sections[si]); si += 1; $b }
one_item_pair_intersections.ours.take() ==> take_items(&mut one_item_pair_intersections.ours)
for item in items { $x.merge_conditional_boxed_subquery($y..); } ==> let mut k: usize = 0; while k < items.len() { let item = clone_of(&items[k]); k += 1; $x.merge_conditional_boxed_subquery($y); }
clone_of(items) ==> clone_of(&items)
clone_of(conditional_item) ==> clone_of(&conditional_item)
clone_of(default_subquery_branch) ==> clone_of(&default_subquery_branch)
intersection_result.ours.unwrap_or_default() ==> (match intersection_result.ours { Some(v) => v, None => Vec::new() })
vec![conditional_item] ==> one_item(conditional_item)
for $q in queries { $b.. } ==> let mut qk: usize = 0; while qk < queries.len() { let $q = clone_of(&queries[qk]); qk += 1; $b }
Query::new() ==> empty_query()
//@ end
pub fn one_item(x: QueryItem) -> (r: Vec<QueryItem>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); assert(v@ =~= seq![x]); v }
pub fn take_items(o: &mut Option<Vec<QueryItem>>) -> (r: Option<Vec<QueryItem>>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body] pub fn drain_all(o: &mut Vec<QueryItem>) -> (r: Vec<QueryItem>) ensures r@ == old(o)@, final(o)@.len() == 0 { o.drain(..).collect() }
pub open spec fn items_of(o: Option<Vec<QueryItem>>) -> Seq<QueryItem> { match o { None => Seq::empty(), Some(v) => v@ } }
// get_or_insert(vec![]) followed by push or append
#[verifier::external_body] pub fn push_opt(o: &mut Option<Vec<QueryItem>>, x: QueryItem) ensures *final(o) is Some, items_of(*final(o)) == items_of(*old(o)).push(x) { o.get_or_insert(vec![]).push(x) }
#[verifier::external_body] pub fn append_opt(o: &mut Option<Vec<QueryItem>>, x: &mut Vec<QueryItem>) ensures *final(o) is Some, items_of(*final(o)) == items_of(*old(o)) + old(x)@, final(x)@.len() == 0 { o.get_or_insert(vec![]).append(x) }
pub fn take_branches(o: &mut Option<IndexMap<QueryItem, SubqueryBranch>>) -> (r: Option<IndexMap<QueryItem, SubqueryBranch>>)
    ensures r == *old(o), *final(o) is None { o.take() }

// ---- conditional branches as a map from keys --------------------------------------
pub type Ent = (QueryItem, SubqueryBranch);
pub open spec fn ents(m: Option<IndexMap<QueryItem, SubqueryBranch>>) -> Seq<Ent> { match m { None => Seq::empty(), Some(m) => m@ } }
pub open spec fn sep(a: QueryItem, b: QueryItem) -> bool { plt(hi(a), lo(b)) || plt(hi(b), lo(a)) }
// pairwise disjoint, non-empty conditions
pub open spec fn disj(s: Seq<Ent>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> wf((#[trigger] s[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> sep((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
// the branch a point falls under
pub open spec fn look(s: Seq<Ent>, p: Pt) -> Option<SubqueryBranch>
    decreases s.len()
{ if s.len() == 0 { None } else if ini(s.last().0, p) { Some(s.last().1) } else { look(s.drop_last(), p) } }
pub proof fn look_none(s: Seq<Ent>, p: Pt) ensures look(s, p) is None <==> forall|i: int| 0 <= i < s.len() ==> !ini((#[trigger] s[i]).0, p) decreases s.len()
{
    if s.len() > 0 {
        look_none(s.drop_last(), p);
        if !ini(s.last().0, p) {
            if look(s.drop_last(), p) is None { assert forall|i: int| 0 <= i < s.len() implies !ini((#[trigger] s[i]).0, p) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } }
            else { let i = choose|i: int| 0 <= i < s.len() - 1 && ini((#[trigger] s.drop_last()[i]).0, p); assert(ini(s[i].0, p)); }
        } else { assert(ini(s[s.len() - 1].0, p)); }
    }
}
// with disjoint conditions the order of the branches does not matter: any matching branch is the branch
pub proof fn look_any(s: Seq<Ent>, p: Pt, i: int)
    requires disj(s), 0 <= i < s.len(), ini(s[i].0, p) ensures look(s, p) == Some(s[i].1) decreases s.len()
{
    porder();
    if i < s.len() - 1 {
        assert(sep(s[i].0, s[s.len() - 1].0));
        assert(s.drop_last()[i] == s[i]);
        assert(disj(s.drop_last())) by { let t = s.drop_last(); assert forall|a: int| 0 <= a < t.len() implies wf((#[trigger] t[a]).0) by { assert(t[a] == s[a]); } assert forall|a: int, b: int| 0 <= a < b < t.len() implies sep((#[trigger] t[a]).0, (#[trigger] t[b]).0) by { assert(t[a] == s[a]); assert(t[b] == s[b]); } }
        look_any(s.drop_last(), p, i);
    }
}
pub open spec fn comb(o: Option<SubqueryBranch>, inn: bool, nb: SubqueryBranch) -> Option<SubqueryBranch>
{ match o { None => if inn { Some(nb) } else { None }, Some(b) => if inn { Some(merged(b, nb)) } else { Some(b) } } }
pub proof fn push_ent(s: Seq<Ent>, x: QueryItem, b: SubqueryBranch)
    ensures
        forall|p: Pt| #[trigger] look(s.push((x, b)), p) == (if ini(x, p) { Some(b) } else { look(s, p) }),
        disj(s) && wf(x) && (forall|i: int| 0 <= i < s.len() ==> sep((#[trigger] s[i]).0, x)) ==> disj(s.push((x, b))),
        wf(x) && (forall|i: int| 0 <= i < s.len() ==> sep((#[trigger] s[i]).0, x)) ==> fresh(s, x),
{
    porder();
    let t = s.push((x, b)); assert(t.drop_last() =~= s);
    if disj(s) && wf(x) && (forall|i: int| 0 <= i < s.len() ==> sep((#[trigger] s[i]).0, x)) {
        assert forall|i: int| 0 <= i < t.len() implies wf((#[trigger] t[i]).0) by { if i < s.len() { assert(t[i] == s[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies sep((#[trigger] t[i]).0, (#[trigger] t[j]).0) by { assert(t[i] == s[i]); if j < s.len() { assert(t[j] == s[j]); } }
    }
}
// two non-empty items with no common point are separated
pub proof fn apart(a: QueryItem, b: QueryItem) requires wf(a), wf(b), !meet(a, b) ensures sep(a, b) { porder(); }

//@ type grovedb-query/src/query.rs Query

// ---- merging a whole query ------------------------------------------------------
pub open spec fn asks(b: SubqueryBranch) -> bool { b.subquery is Some || b.subquery_path is Some }
pub open spec fn upd(o: Option<SubqueryBranch>, inn: bool, b: SubqueryBranch) -> Option<SubqueryBranch> { if asks(b) { comb(o, inn, b) } else { o } }
// one condition after the other
pub open spec fn cfold(o: Option<SubqueryBranch>, cs: Seq<Ent>, n: int, p: Pt) -> Option<SubqueryBranch>
    decreases n
{ if n <= 0 { o } else { upd(cfold(o, cs, n - 1, p), ini(cs[n - 1].0, p), cs[n - 1].1) } }
pub open spec fn incs(cs: Seq<Ent>, n: int, p: Pt) -> bool { exists|i: int| 0 <= i < n && ini((#[trigger] cs[i]).0, p) }
// each condition, and the default branch on the items no condition covers
pub open spec fn whole(o: Option<SubqueryBranch>, q: Query, p: Pt) -> Option<SubqueryBranch>
{ let cs = ents(q.conditional_subquery_branches); upd(cfold(o, cs, cs.len() as int, p), inparts(q.items@, p) && !incs(cs, cs.len() as int, p), q.default_subquery_branch) }
pub open spec fn apartall(s: Seq<QueryItem>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> plt(hi(#[trigger] s[i]), lo(#[trigger] s[j]))
}
pub open spec fn mergeable(a: Query, b: Query) -> bool {
    &&& disj(ents(a.conditional_subquery_branches)) && apartall(b.items@)
    &&& forall|i: int| 0 <= i < ents(b.conditional_subquery_branches).len() ==> wf((#[trigger] ents(b.conditional_subquery_branches)[i]).0)
}
pub open spec fn mergeable1(b: Query) -> bool { apartall(b.items@) && forall|i: int| 0 <= i < ents(b.conditional_subquery_branches).len() ==> wf((#[trigger] ents(b.conditional_subquery_branches)[i]).0) }
pub open spec fn allmergeable(qs: Seq<Query>) -> bool { disj(ents(qs[0].conditional_subquery_branches)) && forall|i: int| 0 < i < qs.len() ==> mergeable1(#[trigger] qs[i]) }
// the queries merged into the first one, in the order `swap_remove(0)` leaves them in
pub open spec fn others(qs: Seq<Query>) -> Seq<Query> { qs.update(0, qs.last()).drop_last() }
pub open spec fn wholes(o: Option<SubqueryBranch>, qs: Seq<Query>, n: int, p: Pt) -> Option<SubqueryBranch>
    decreases n
{ if n <= 0 { o } else { whole(wholes(o, qs, n - 1, p), qs[n - 1], p) } }
pub open spec fn anyp(qs: Seq<Query>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] qs[i]).add_parent_tree_on_subquery }
#[verifier::external_body] pub fn empty_query() -> (r: Query) ensures r.items@.len() == 0, r.conditional_subquery_branches is None { unimplemented!() }
// the branches once n conditions are merged in
pub open spec fn merging(had: Seq<Ent>, cs: Seq<Ent>, n: int, now: Seq<Ent>) -> bool { disj(now) && forall|p: Pt| #[trigger] look(now, p) == cfold(look(had, p), cs, n, p) }
pub proof fn merging_step(had: Seq<Ent>, cs: Seq<Ent>, n: int, now: Seq<Ent>, then: Seq<Ent>)
    requires 0 <= n < cs.len(), merging(had, cs, n, now), disj(then), forall|p: Pt| #[trigger] look(then, p) == upd(look(now, p), ini(cs[n].0, p), cs[n].1)
    ensures merging(had, cs, n + 1, then) { }
// what is left of the items after n conditions
pub open spec fn left(its: Seq<QueryItem>, cs: Seq<Ent>, n: int, rem: Seq<QueryItem>) -> bool { apartall(rem) && forall|p: Pt| #[trigger] inparts(rem, p) == (inparts(its, p) && !incs(cs, n, p)) }
pub proof fn left_step(its: Seq<QueryItem>, cs: Seq<Ent>, n: int, rem: Seq<QueryItem>, then: Seq<QueryItem>)
    requires 0 <= n < cs.len(), left(its, cs, n, rem), apartall(then), forall|p: Pt| #[trigger] inparts(then, p) == (inparts(rem, p) && !ini(cs[n].0, p))
    ensures left(its, cs, n + 1, then)
{ assert forall|p: Pt| #[trigger] inparts(then, p) == (inparts(its, p) && !incs(cs, n + 1, p)) by {
    assert(incs(cs, n + 1, p) == (incs(cs, n, p) || ini(cs[n].0, p))) by { if incs(cs, n + 1, p) { let i = choose|i: int| 0 <= i < n + 1 && ini((#[trigger] cs[i]).0, p); if i < n { assert(incs(cs, n, p)); } } if ini(cs[n].0, p) { assert(0 <= n < n + 1); } }
} }
pub open spec fn defaulting(base: Seq<Ent>, its: Seq<QueryItem>, k: int, d: SubqueryBranch, now: Seq<Ent>) -> bool
{ disj(now) && apartall(its) && forall|p: Pt| #[trigger] look(now, p) == upd(look(base, p), inparts(its.take(k), p), d) }
pub proof fn defaulting_step(base: Seq<Ent>, its: Seq<QueryItem>, k: int, d: SubqueryBranch, now: Seq<Ent>, then: Seq<Ent>)
    requires 0 <= k < its.len(), defaulting(base, its, k, d, now), disj(then), forall|p: Pt| #[trigger] look(then, p) == upd(look(now, p), ini(its[k], p), d)
    ensures defaulting(base, its, k + 1, d, then)
{
    assert(its.take(k + 1) =~= its.take(k).push(its[k])); inparts_push(its.take(k), its[k]); porder();
    assert forall|p: Pt| #[trigger] look(then, p) == upd(look(base, p), inparts(its.take(k + 1), p), d) by {
        assert(look(now, p) == upd(look(base, p), inparts(its.take(k), p), d));
        if ini(its[k], p) && inparts(its.take(k), p) { let i = choose|i: int| 0 <= i < k && ini(#[trigger] its.take(k)[i], p); assert(its.take(k)[i] == its[i]); assert(plt(hi(its[i]), lo(its[k]))); }
    }
}

//@ type grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult
//@ type grovedb-query/src/query_item/intersect.rs QueryItemIntersectionResultTheirsLeftovers
pub fn no_parts() -> (r: QueryItemManyIntersectionResult) ensures r.in_both is None, r.ours is None, r.theirs is None { QueryItemManyIntersectionResult { in_both: None, ours: None, theirs: None } }
pub open spec fn opt_seq(o: Option<QueryItem>) -> Seq<QueryItem> { match o { None => Seq::empty(), Some(x) => seq![x] } }
impl QueryItemManyIntersectionResult {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_ours
//@ spec
  ensures *final(self) == (QueryItemManyIntersectionResult { ours: final(self).ours, ..*old(self) }), final(self).ours is Some, items_of(final(self).ours) == items_of(old(self).ours).push(our_query_item),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_theirs
//@ spec
  ensures *final(self) == (QueryItemManyIntersectionResult { theirs: final(self).theirs, ..*old(self) }), final(self).theirs is Some, items_of(final(self).theirs) == items_of(old(self).theirs).push(their_query_item),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_ours_and_in_both_from_result
//@ ret r
//@ spec
  ensures
    items_of(final(self).ours) =~= items_of(old(self).ours) + opt_seq(query_item_intersection_result.ours_left) + opt_seq(query_item_intersection_result.ours_right),
    final(self).theirs == old(self).theirs, items_of(final(self).in_both) =~= items_of(old(self).in_both) + opt_seq(query_item_intersection_result.in_both),
    r.theirs_left == query_item_intersection_result.theirs_left, r.theirs_right == query_item_intersection_result.theirs_right,
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::merge_in
//@ spec
  ensures
    items_of(final(self).ours) =~= items_of(old(self).ours) + items_of(query_item_many_intersection_result.ours),
    items_of(final(self).theirs) =~= items_of(old(self).theirs) + items_of(query_item_many_intersection_result.theirs),
    items_of(final(self).in_both) =~= items_of(old(self).in_both) + items_of(query_item_many_intersection_result.in_both),
//@ end
}
// one item minus another
pub open spec fn minus(a: QueryItem, t: QueryItem, r: Seq<QueryItem>) -> bool {
    &&& apartall(r) && forall|p: Pt| #[trigger] inparts(r, p) == (ini(a, p) && !ini(t, p))
    &&& forall|i: int| 0 <= i < r.len() ==> ple(lo(a), lo(#[trigger] r[i])) && ple(hi(r[i]), hi(a))
}
pub proof fn pieces_minus(a: QueryItem, t: QueryItem, x: QueryItemIntersectionResult)
    requires wf(a), wf(t), pieces(a, t, x) ensures minus(a, t, opt_seq(x.ours_left) + opt_seq(x.ours_right))
{
    porder();
    let r = opt_seq(x.ours_left) + opt_seq(x.ours_right);
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(a, p) && !ini(t, p)) by {
        assert(inparts(r, p) == (inoi(x.ours_left, p) || inoi(x.ours_right, p))) by {
            if inoi(x.ours_left, p) { assert(ini(r[0], p)); }
            if inoi(x.ours_right, p) { assert(ini(r[r.len() - 1], p)); }
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies wf(#[trigger] r[i]) && ple(lo(a), lo(r[i])) && ple(hi(r[i]), hi(a)) by {
        if x.ours_left is Some && i == 0 { let y = x.ours_left->0; assert(inoi(x.ours_left, lo(y)) && inoi(x.ours_left, hi(y))); }
        else { let y = x.ours_right->0; assert(inoi(x.ours_right, lo(y)) && inoi(x.ours_right, hi(y))); }
    }
    if x.ours_left is Some && x.ours_right is Some { assert(inoi(x.ours_left, hi(x.ours_left->0))); assert(inoi(x.ours_right, lo(x.ours_right->0))); }
}
pub open spec fn sofar(os: Seq<QueryItem>, n: int, t: QueryItem, r: Seq<QueryItem>) -> bool {
    &&& apartall(r) && forall|p: Pt| #[trigger] inparts(r, p) == (inparts(os.take(n), p) && !ini(t, p))
    &&& forall|i: int, j: int| 0 <= i < r.len() && n <= j < os.len() ==> plt(hi(#[trigger] r[i]), lo(#[trigger] os[j]))
}
pub proof fn sofar_step(os: Seq<QueryItem>, n: int, t: QueryItem, r: Seq<QueryItem>, x: Seq<QueryItem>)
    requires 0 <= n < os.len(), apartall(os), sofar(os, n, t, r), minus(os[n], t, x) ensures sofar(os, n + 1, t, r + x)
{
    porder();
    let z = r + x;
    assert(os.take(n + 1) =~= os.take(n).push(os[n])); inparts_push(os.take(n), os[n]);
    assert forall|p: Pt| #[trigger] inparts(z, p) == (inparts(os.take(n + 1), p) && !ini(t, p)) by {
        assert(inparts(z, p) == (inparts(r, p) || inparts(x, p))) by {
            if inparts(r, p) { let i = choose|i: int| 0 <= i < r.len() && ini(#[trigger] r[i], p); assert(ini(z[i], p)); }
            if inparts(x, p) { let i = choose|i: int| 0 <= i < x.len() && ini(#[trigger] x[i], p); assert(ini(z[r.len() + i], p)); }
            if inparts(z, p) { let i = choose|i: int| 0 <= i < z.len() && ini(#[trigger] z[i], p); if i < r.len() { assert(ini(r[i], p)); } else { assert(ini(x[i - r.len()], p)); } }
        }
    }
    assert forall|i: int| 0 <= i < z.len() implies wf(#[trigger] z[i]) by { if i >= r.len() { assert(wf(x[i - r.len()])); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies plt(hi(#[trigger] z[i]), lo(#[trigger] z[j])) by {
        if i >= r.len() { assert(plt(hi(x[i - r.len()]), lo(x[j - r.len()]))); } else if j >= r.len() { assert(plt(hi(r[i]), lo(os[n]))); assert(ple(lo(os[n]), lo(x[j - r.len()]))); }
    }
    assert forall|i: int, j: int| 0 <= i < z.len() && n + 1 <= j < os.len() implies plt(hi(#[trigger] z[i]), lo(#[trigger] os[j])) by {
        assert(plt(hi(os[n]), lo(os[j]))); if i >= r.len() { assert(ple(hi(x[i - r.len()]), hi(os[n]))); } else { assert(plt(hi(r[i]), lo(os[j]))); }
    }
}
impl QueryItem {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItem::intersect_many_ordered
//@ attr #[verifier::loop_isolation(false)]
//@ rule1 result.merge_in($x); ==> let ghost one_ours = $x.ours; result.merge_in($x);
//@ rule1 result.merge_in($x) } ==> let ghost one_ours = $x.ours; result.merge_in($x); }
//@ ret r
//@ spec
  ensures
    final(ours)@.len() == 0,
    // taking a single item away
    theirs@.len() == 1 && wf(theirs@[0]) && apartall(old(ours)@) ==> apartall(items_of(r.ours)) && forall|p: Pt| #[trigger] inparts(items_of(r.ours), p) == (inparts(old(ours)@, p) && !ini(theirs@[0], p)),
//@ at start
  let ghost os = ours@; let ghost good = theirs@.len() == 1 && wf(theirs@[0]) && apartall(os); let ghost t = theirs@[0];
  proof { porder(); }
//@ preloop 1
  proof { if good { assert(sofar(os, 0, t, items_of(result.ours))); } }
//@ loop 1
  invariant oi <= os.len(), drained@ == os, ours@.len() == 0, good ==> sofar(os, oi as int, t, items_of(result.ours)),
  decreases os.len() - oi
//@ loopstart 1
  let ghost rb = items_of(result.ours);
//@ loop 2
  invariant ti <= theirs@.len(),
    good && ti == 0 ==> one_item_pair_intersections.ours is Some && items_of(one_item_pair_intersections.ours) =~= seq![os[oi - 1]],
    good && ti == 1 ==> minus(os[oi - 1], t, items_of(one_item_pair_intersections.ours)),
  decreases theirs@.len() - ti
//@ loop 3
  invariant si <= our_item_split_sections@.len(),
    good && si == 0 ==> maybe_temp_their_item == Some(t) && one_item_pair_intersections.ours is None,
    good && si == 1 ==> minus(os[oi - 1], t, items_of(one_item_pair_intersections.ours)),
  decreases our_item_split_sections@.len() - si
//@ after let intersection_result = our_partial_item.intersect(&temp_their_item);
  let ghost ix = intersection_result; let ghost bef = items_of(one_item_pair_intersections.ours);
  proof { if good { pieces_minus(os[oi - 1], t, ix); } }
//@ after let theirs_leftovers = $x..;
  proof { if good && si == 1 { assert(bef.len() == 0); assert(items_of(one_item_pair_intersections.ours) =~= opt_seq(ix.ours_left) + opt_seq(ix.ours_right)); } }
//@ loopend 1
  proof { if good { sofar_step(os, oi - 1, t, rb, items_of(one_ours)); assert(items_of(result.ours) =~= rb + items_of(one_ours)); } }
//@ postloop 1
  proof { assert(os.take(os.len() as int) =~= os); }
//@ end
}

// state of the merge after the first branches: what was merged so far, and what of the new condition is left
pub open spec fn outer(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m: Seq<Ent>, parts: Seq<QueryItem>) -> bool {
    &&& disj(m)
    &&& forall|k: int| 0 <= k < parts.len() ==> wf(#[trigger] parts[k])
    &&& forall|p: Pt| #[trigger] look(m, p) == (match look(es.take(n), p) { None => None, Some(b) => comb(Some(b), ini(x, p), nb) })
    &&& forall|p: Pt| #[trigger] inparts(parts, p) == (ini(x, p) && look(es.take(n), p) is None)
    &&& gaps(es, n, parts)
}
pub open spec fn inparts(parts: Seq<QueryItem>, p: Pt) -> bool { exists|k: int| 0 <= k < parts.len() && ini(#[trigger] parts[k], p) }
// between any two parts lies a whole earlier branch
pub open spec fn between(a: QueryItem, o: QueryItem, b: QueryItem) -> bool { plt(hi(a), lo(o)) && plt(hi(o), lo(b)) }
pub open spec fn gap(es: Seq<Ent>, n: int, a: QueryItem, b: QueryItem) -> bool { exists|j: int| 0 <= j < n && between(a, (#[trigger] es[j]).0, b) }
pub open spec fn gaps(es: Seq<Ent>, n: int, parts: Seq<QueryItem>) -> bool
{ forall|a: int, b: int| 0 <= a < b < parts.len() ==> gap(es, n, #[trigger] parts[a], #[trigger] parts[b]) }

pub open spec fn allsep(s: Seq<Ent>, x: QueryItem) -> bool { forall|i: int| 0 <= i < s.len() ==> sep((#[trigger] s[i]).0, x) }
pub open spec fn within(a: QueryItem, b: QueryItem) -> bool { forall|p: Pt| #[trigger] ini(a, p) ==> ini(b, p) }
pub proof fn no_common(a: QueryItem, b: QueryItem) requires wf(a), wf(b), forall|p: Pt| !(#[trigger] ini(a, p) && ini(b, p)) ensures sep(a, b)
{ porder(); assert(!(ini(a, lo(a)) && ini(b, lo(a)))); assert(!(ini(a, lo(b)) && ini(b, lo(b)))); }
pub proof fn within_bounds(a: QueryItem, b: QueryItem) requires wf(a), within(a, b) ensures ple(lo(b), lo(a)), ple(hi(a), hi(b))
{ porder(); assert(ini(a, lo(a))); assert(ini(a, hi(a))); }
pub proof fn within_sep(s: Seq<Ent>, a: QueryItem, b: QueryItem) requires wf(a), within(a, b), allsep(s, b) ensures allsep(s, a) { porder(); within_bounds(a, b); }
pub proof fn inparts_push(s: Seq<QueryItem>, x: QueryItem) ensures forall|p: Pt| #[trigger] inparts(s.push(x), p) == (inparts(s, p) || ini(x, p))
{
    assert forall|p: Pt| #[trigger] inparts(s.push(x), p) == (inparts(s, p) || ini(x, p)) by {
        let t = s.push(x);
        if inparts(s, p) { let i = choose|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], p); assert(ini(t[i], p)); }
        if ini(x, p) { assert(ini(t[s.len() as int], p)); }
        if inparts(t, p) { let i = choose|i: int| 0 <= i < t.len() && ini(#[trigger] t[i], p); if i < s.len() { assert(ini(s[i], p)); } }
    }
}
// at most one part meets a further branch
pub proof fn one_hit(es: Seq<Ent>, n: int, parts: Seq<QueryItem>, a: int, c: int)
    requires disj(es), 0 <= n < es.len(), gaps(es, n, parts), 0 <= a < c < parts.len(), wf(parts[a]), wf(parts[c]), meet(es[n].0, parts[a]), meet(es[n].0, parts[c])
    ensures false
{
    porder();
    assert(gap(es, n, parts[a], parts[c]));
    let j = choose|j: int| 0 <= j < n && between(parts[a], (#[trigger] es[j]).0, parts[c]);
    assert(sep(es[j].0, es[n].0)); assert(wf(es[j].0)); assert(wf(es[n].0));
}
pub proof fn take_look(es: Seq<Ent>, n: int) requires 0 <= n < es.len() ensures forall|p: Pt| #[trigger] look(es.take(n + 1), p) == (if ini(es[n].0, p) { Some(es[n].1) } else { look(es.take(n), p) })
{ assert(es.take(n + 1).drop_last() =~= es.take(n)); assert(es.take(n + 1).last() == es[n]); }
// the next branch covers nothing the earlier ones cover
pub proof fn next_new(es: Seq<Ent>, n: int, p: Pt) requires disj(es), 0 <= n < es.len(), ini(es[n].0, p) ensures look(es.take(n), p) is None
{
    porder(); look_none(es.take(n), p);
    assert forall|i: int| 0 <= i < n implies !ini((#[trigger] es.take(n)[i]).0, p) by { assert(es.take(n)[i] == es[i]); assert(sep(es[i].0, es[n].0)); }
}
pub proof fn next_sep(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m: Seq<Ent>, parts: Seq<QueryItem>)
    requires disj(es), 0 <= n < es.len(), outer(es, n, x, nb, m, parts) ensures allsep(m, es[n].0)
{
    assert forall|i: int| 0 <= i < m.len() implies sep((#[trigger] m[i]).0, es[n].0) by {
        assert forall|p: Pt| !(#[trigger] ini(m[i].0, p) && ini(es[n].0, p)) by {
            if ini(m[i].0, p) && ini(es[n].0, p) { next_new(es, n, p); look_none(m, p); }
        }
        no_common(m[i].0, es[n].0);
    }
}
pub open spec fn hitby(o: QueryItem, parts: Seq<QueryItem>, k: int) -> bool { exists|c: int| 0 <= c < k && meet(o, #[trigger] parts[c]) }
pub open spec fn inner(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>, k: int, m: Seq<Ent>, np: Seq<QueryItem>, hit: bool) -> bool {
    let o = es[n].0; let b = es[n].1;
    &&& hit == hitby(o, parts, k)
    &&& hit ==> disj(m) && forall|p: Pt| #[trigger] look(m, p) == (if ini(o, p) { comb(Some(b), ini(x, p), nb) } else { look(m0, p) })
    &&& !hit ==> m == m0
    &&& forall|c: int| 0 <= c < np.len() ==> wf(#[trigger] np[c])
    &&& forall|p: Pt| #[trigger] inparts(np, p) == (inparts(parts.take(k), p) && !ini(o, p))
    &&& gaps(es, n + 1, np)
    &&& forall|a: int, c: int| 0 <= a < np.len() && k <= c < parts.len() ==> gap(es, n, #[trigger] np[a], #[trigger] parts[c])
}
pub proof fn gap_mono(es: Seq<Ent>, n: int, a: QueryItem, b: QueryItem, a2: QueryItem, b2: QueryItem, n2: int)
    requires gap(es, n, a, b), ple(hi(a2), hi(a)), ple(lo(b), lo(b2)), n <= n2 ensures gap(es, n2, a2, b2)
{ porder(); let j = choose|j: int| 0 <= j < n && between(a, (#[trigger] es[j]).0, b); assert(between(a2, es[j].0, b2)); }
pub proof fn start_inner(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>)
    ensures inner(es, n, x, nb, m0, parts, 0, m0, Seq::empty(), false) { }
// a part, or a remainder of it, is kept for the later branches
pub proof fn keep(es: Seq<Ent>, n: int, parts: Seq<QueryItem>, k: int, np: Seq<QueryItem>, y: QueryItem)
    requires gaps(es, n, parts), 0 <= k < parts.len(), wf(y), within(y, parts[k]),
        forall|c: int| 0 <= c < np.len() ==> wf(#[trigger] np[c]),
        forall|a: int| 0 <= a < np.len() ==> gap(es, n + 1, #[trigger] np[a], y),
        gaps(es, n + 1, np), forall|a: int, c: int| 0 <= a < np.len() && k + 1 <= c < parts.len() ==> gap(es, n, #[trigger] np[a], #[trigger] parts[c])
    ensures gaps(es, n + 1, np.push(y)), forall|c: int| 0 <= c < np.push(y).len() ==> wf(#[trigger] np.push(y)[c]),
        forall|a: int, c: int| 0 <= a < np.push(y).len() && k + 1 <= c < parts.len() ==> gap(es, n, #[trigger] np.push(y)[a], #[trigger] parts[c])
{
    porder(); within_bounds(y, parts[k]);
    let t = np.push(y);
    assert forall|a: int, c: int| 0 <= a < t.len() && k + 1 <= c < parts.len() implies gap(es, n, #[trigger] t[a], #[trigger] parts[c]) by {
        if a < np.len() { assert(t[a] == np[a]); } else { assert(gap(es, n, parts[k], parts[c])); gap_mono(es, n, parts[k], parts[c], y, parts[c], n); }
    }
    assert forall|a: int, c: int| 0 <= a < c < t.len() implies gap(es, n + 1, #[trigger] t[a], #[trigger] t[c]) by { assert(t[a] == np[a]); if c < np.len() { assert(t[c] == np[c]); } }
}
pub proof fn hit_next(o: QueryItem, parts: Seq<QueryItem>, k: int) requires 0 <= k < parts.len() ensures hitby(o, parts, k + 1) == (hitby(o, parts, k) || meet(o, parts[k]))
{
    if hitby(o, parts, k + 1) { let c = choose|c: int| 0 <= c < k + 1 && meet(o, #[trigger] parts[c]); if c < k { assert(hitby(o, parts, k)); } }
    if meet(o, parts[k]) { assert(hitby(o, parts, k + 1)); }
}
pub proof fn step_miss(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>, k: int, m: Seq<Ent>, np: Seq<QueryItem>, hit: bool)
    requires disj(es), 0 <= n < es.len(), outer(es, n, x, nb, m0, parts), inner(es, n, x, nb, m0, parts, k, m, np, hit), 0 <= k < parts.len(), !meet(es[n].0, parts[k])
    ensures inner(es, n, x, nb, m0, parts, k + 1, m, np.push(parts[k]), hit)
{
    porder(); let o = es[n].0; let y = parts[k];
    hit_next(o, parts, k);
    assert(parts.take(k + 1) =~= parts.take(k).push(y)); inparts_push(parts.take(k), y); inparts_push(np, y);
    assert forall|a: int| 0 <= a < np.len() implies gap(es, n + 1, #[trigger] np[a], y) by { assert(gap(es, n, np[a], parts[k])); gap_mono(es, n, np[a], y, np[a], y, n + 1); }
    keep(es, n, parts, k, np, y);
    assert forall|p: Pt| !(#[trigger] ini(y, p) && ini(o, p)) by { }
}
pub open spec fn pusho(s: Seq<Ent>, o: Option<QueryItem>, b: SubqueryBranch) -> Seq<Ent> { match o { None => s, Some(x) => s.push((x, b)) } }
pub open spec fn pushp(s: Seq<QueryItem>, o: Option<QueryItem>) -> Seq<QueryItem> { match o { None => s, Some(x) => s.push(x) } }
pub open spec fn freshy(s: Seq<Ent>, o: Option<QueryItem>) -> bool { match o { None => true, Some(x) => fresh(s, x) } }
pub proof fn pusho_ent(s: Seq<Ent>, o: Option<QueryItem>, b: SubqueryBranch)
    requires disj(s), owf(o), forall|i: int, p: Pt| 0 <= i < s.len() && #[trigger] ini((#[trigger] s[i]).0, p) ==> !inoi(o, p)
    ensures disj(pusho(s, o, b)), forall|p: Pt| #[trigger] look(pusho(s, o, b), p) == (if inoi(o, p) { Some(b) } else { look(s, p) }), freshy(s, o)
{
    if let Some(x) = o {
        assert forall|i: int| 0 <= i < s.len() implies sep((#[trigger] s[i]).0, x) by {
            assert forall|p: Pt| !(#[trigger] ini(s[i].0, p) && ini(x, p)) by { if ini(s[i].0, p) && ini(x, p) { assert(inoi(o, p)); } }
            no_common(s[i].0, x);
        }
        push_ent(s, x, b);
    }
}
// no entry covers a point the lookup does not find
pub proof fn uncovered(s: Seq<Ent>, o: Option<QueryItem>)
    requires forall|p: Pt| #[trigger] inoi(o, p) ==> look(s, p) is None
    ensures forall|i: int, p: Pt| 0 <= i < s.len() && #[trigger] ini((#[trigger] s[i]).0, p) ==> !inoi(o, p)
{ assert forall|i: int, p: Pt| 0 <= i < s.len() && #[trigger] ini((#[trigger] s[i]).0, p) implies !inoi(o, p) by { if inoi(o, p) { look_none(s, p); } } }
// a branch meeting a part: the common piece gets both branches, the branch's remainders keep its own, the part's remainders stay
pub proof fn step_hit(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>, k: int, m: Seq<Ent>, np: Seq<QueryItem>, hit: bool, r: QueryItemIntersectionResult)
    requires disj(es), 0 <= n < es.len(), outer(es, n, x, nb, m0, parts), inner(es, n, x, nb, m0, parts, k, m, np, hit), 0 <= k < parts.len(), meet(es[n].0, parts[k]), wf(x),
        pieces(es[n].0, parts[k], r)
    ensures
        ({ let b = es[n].1;
           let t0 = m.push((r.in_both.unwrap(), merged(b, nb))); let t1 = pusho(t0, r.ours_left, b); let t2 = pusho(t1, r.ours_right, b);
           &&& fresh(m, r.in_both.unwrap()) && freshy(t0, r.ours_left) && freshy(t1, r.ours_right)
           &&& inner(es, n, x, nb, m0, parts, k + 1, t2, pushp(pushp(np, r.theirs_left), r.theirs_right), true) })
{
    porder(); let o = es[n].0; let b = es[n].1; let y = parts[k];
    hit_next(o, parts, k); assert(wf(o)); assert(wf(y));
    if hit { let c = choose|c: int| 0 <= c < k && meet(o, #[trigger] parts[c]); one_hit(es, n, parts, c, k); }
    assert(m == m0);
    pieces_all(o, y, r);
    // points of the branch outside this part are not in the new condition
    assert forall|p: Pt| ini(o, p) && #[trigger] ini(x, p) implies ini(y, p) by {
        next_new(es, n, p); assert(inparts(parts, p));
        let c = choose|c: int| 0 <= c < parts.len() && ini(#[trigger] parts[c], p);
        if c < k { one_hit(es, n, parts, c, k); } else if c > k { one_hit(es, n, parts, k, c); }
    }
    assert forall|p: Pt| #[trigger] ini(y, p) implies ini(x, p) by { assert(inparts(parts, p)); }
    assert forall|p: Pt| ini(o, p) implies look(m0, p) is None by { next_new(es, n, p); }
    let ib = r.in_both; let t0 = m.push((ib.unwrap(), merged(b, nb)));
    assert(t0 == pusho(m, ib, merged(b, nb)));
    uncovered(m, ib); pusho_ent(m, ib, merged(b, nb));
    uncovered(t0, r.ours_left); pusho_ent(t0, r.ours_left, b);
    let t1 = pusho(t0, r.ours_left, b);
    uncovered(t1, r.ours_right); pusho_ent(t1, r.ours_right, b);
    let t2 = pusho(t1, r.ours_right, b);
    assert forall|p: Pt| #[trigger] look(t2, p) == (if ini(o, p) { comb(Some(b), ini(x, p), nb) } else { look(m0, p) }) by { }
    // the parts
    assert(parts.take(k + 1) =~= parts.take(k).push(y)); inparts_push(parts.take(k), y);
    let n1 = pushp(np, r.theirs_left);
    if let Some(l) = r.theirs_left {
        assert forall|p: Pt| #[trigger] ini(l, p) implies ini(y, p) by { assert(inoi(r.theirs_left, p)); }
        within_bounds(l, y);
        assert forall|a: int| 0 <= a < np.len() implies gap(es, n + 1, #[trigger] np[a], l) by { assert(gap(es, n, np[a], parts[k])); gap_mono(es, n, np[a], y, np[a], l, n + 1); }
        keep(es, n, parts, k, np, l); inparts_push(np, l);
    }
    if let Some(q) = r.theirs_right {
        assert forall|p: Pt| #[trigger] ini(q, p) implies ini(y, p) by { assert(inoi(r.theirs_right, p)); }
        within_bounds(q, y);
        assert forall|a: int| 0 <= a < n1.len() implies gap(es, n + 1, #[trigger] n1[a], q) by {
            if a < np.len() { assert(n1[a] == np[a]); assert(gap(es, n, np[a], parts[k])); gap_mono(es, n, np[a], y, np[a], q, n + 1); }
            else {
                let l = r.theirs_left.unwrap(); assert(n1[a] == l);
                assert(ini(l, hi(l))); assert(inoi(r.theirs_left, hi(l))); assert(ini(q, lo(q))); assert(inoi(r.theirs_right, lo(q)));
                assert(between(l, es[n].0, q));
            }
        }
        keep(es, n, parts, k, n1, q); inparts_push(n1, q);
    }
    let n2 = pushp(n1, r.theirs_right);
    assert forall|p: Pt| #[trigger] inparts(n2, p) == (inparts(parts.take(k + 1), p) && !ini(o, p)) by {
        assert(inparts(n2, p) == (inparts(np, p) || inoi(r.theirs_left, p) || inoi(r.theirs_right, p)));
    }
}
pub proof fn pieces_all(a: QueryItem, b: QueryItem, r: QueryItemIntersectionResult)
    requires wf(a), wf(b), pieces(a, b, r)
    ensures forall|p: Pt| #[trigger] ini(a, p) == (inoi(r.in_both, p) || inoi(r.ours_left, p) || inoi(r.ours_right, p)),
        forall|p: Pt| #[trigger] ini(b, p) == (inoi(r.in_both, p) || inoi(r.theirs_left, p) || inoi(r.theirs_right, p)),
{ assert forall|p: Pt| #[trigger] ini(a, p) == (inoi(r.in_both, p) || inoi(r.ours_left, p) || inoi(r.ours_right, p)) by { pieces_partition(a, b, r, p); }
  assert forall|p: Pt| #[trigger] ini(b, p) == (inoi(r.in_both, p) || inoi(r.theirs_left, p) || inoi(r.theirs_right, p)) by { pieces_partition(a, b, r, p); } }
// all parts seen: the branch is accounted for
pub proof fn end_inner(es: Seq<Ent>, n: int, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>, m: Seq<Ent>, np: Seq<QueryItem>, hit: bool)
    requires disj(es), 0 <= n < es.len(), outer(es, n, x, nb, m0, parts), inner(es, n, x, nb, m0, parts, parts.len() as int, m, np, hit), wf(x)
    ensures hit ==> outer(es, n + 1, x, nb, m, np), !hit ==> fresh(m, es[n].0) && outer(es, n + 1, x, nb, m.push(es[n]), np)
{
    porder(); let o = es[n].0; let b = es[n].1;
    assert(parts.take(parts.len() as int) =~= parts);
    take_look(es, n);
    if !hit {
        next_sep(es, n, x, nb, m0, parts); push_ent(m, o, b);
        assert forall|p: Pt| ini(o, p) && #[trigger] ini(x, p) implies false by {
            next_new(es, n, p); assert(inparts(parts, p));
            let c = choose|c: int| 0 <= c < parts.len() && ini(#[trigger] parts[c], p); assert(hitby(o, parts, parts.len() as int));
        }
        assert(m.push(es[n]) == m.push((o, b)));
    }
}
// what is left of the new condition is added as new branches
pub open spec fn last_st(m0: Seq<Ent>, parts: Seq<QueryItem>, k: int, nb: SubqueryBranch, m: Seq<Ent>) -> bool {
    disj(m) && forall|p: Pt| #[trigger] look(m, p) == (if inparts(parts.take(k), p) { Some(nb) } else { look(m0, p) })
}
pub proof fn last_step(es: Seq<Ent>, x: QueryItem, nb: SubqueryBranch, m0: Seq<Ent>, parts: Seq<QueryItem>, k: int, m: Seq<Ent>)
    requires outer(es, es.len() as int, x, nb, m0, parts), last_st(m0, parts, k, nb, m), 0 <= k < parts.len(), disj(es)
    ensures fresh(m, parts[k]), last_st(m0, parts, k + 1, nb, m.push((parts[k], nb)))
{
    porder(); let y = parts[k]; assert(wf(y));
    assert(parts.take(k + 1) =~= parts.take(k).push(y)); inparts_push(parts.take(k), y);
    assert forall|p: Pt| #[trigger] inoi(Some(y), p) implies look(m, p) is None by {
        assert(inparts(parts, p)); assert(es.take(es.len() as int) =~= es); assert(look(m0, p) is None);
        if inparts(parts.take(k), p) {
            let c = choose|c: int| 0 <= c < k && ini(#[trigger] parts.take(k)[c], p); assert(parts.take(k)[c] == parts[c]);
            assert(gap(es, es.len() as int, parts[c], parts[k]));
            let j = choose|j: int| 0 <= j < es.len() && between(parts[c], (#[trigger] es[j]).0, parts[k]); assert(wf(es[j].0));
        }
    }
    uncovered(m, Some(y)); pusho_ent(m, Some(y), nb);
}

impl Query {
//@ fn grovedb-query/src/merge.rs Query::merge_conditional_subquery_branches_with_new_at_query_item
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures
    wf(query_item_merging_in) && (match conditional_subquery_branches { None => true, Some(m) => disj(m@) }) ==> disj(r@)
      && forall|p: Pt| #[trigger] look(r@, p) == comb(match conditional_subquery_branches { None => None, Some(m) => look(m@, p) }, ini(query_item_merging_in, p), subquery_branch_merging_in),
//@ at start
  let ghost x = query_item_merging_in; let ghost nb = subquery_branch_merging_in;
  let ghost es0: Seq<Ent> = ents(conditional_subquery_branches);
  let ghost good = wf(x) && disj(es0);
  proof { porder(); }
//@ preloop 1
  proof {
    assert(es@ =~= es0); let v0 = sub_query_items_merging_in_vec@;
    if good {
      assert(v0.len() == 1 && v0[0] == x);
      assert(look(es0.take(0), Pt::Neg) is None);
      assert forall|p: Pt| #[trigger] inparts(v0, p) == (ini(x, p) && look(es0.take(0), p) is None) by { if ini(x, p) { assert(ini(v0[0], p)); } }
      assert(outer(es0, 0, x, nb, merged_items@, v0));
    }
  }
//@ loop 1
  invariant ei <= es@.len(), es@ == es0, good ==> outer(es0, ei as int, x, nb, merged_items@, sub_query_items_merging_in_vec@),
  decreases es@.len() - ei
//@ preloop 2
  let ghost n = ei - 1; let ghost m0 = merged_items@; let ghost parts = sub_query_items_merging_in_vec@;
  proof { assert(es0[n].0 == original_query_item && es0[n].1 == subquery_branch); start_inner(es0, n, x, nb, m0, parts); assert(new_query_items_merging_in_vec@ =~= Seq::empty()); }
//@ loop 2
  invariant k <= parts.len(), sub_query_items_merging_in_vec@ == parts, 
    good ==> inner(es0, n, x, nb, m0, parts, k as int, merged_items@, new_query_items_merging_in_vec@, hit),
  decreases parts.len() - k
//@ loopstart 2
  let ghost m = merged_items@; let ghost np = new_query_items_merging_in_vec@; let ghost hit0 = hit;
//@ before if let Some(in_both) = in_both $x..
  let ghost rr = QueryItemIntersectionResult { in_both, ours_left, ours_right, theirs_left, theirs_right };
  proof { if good { assert(wf(es0[n].0)); assert(pieces(es0[n].0, parts[k - 1], rr)); if rr.in_both is Some { step_hit(es0, n, x, nb, m0, parts, k - 1, m, np, hit0, rr); } else { step_miss(es0, n, x, nb, m0, parts, k - 1, m, np, hit0); } } }
//@ postloop 2
  proof { if good { end_inner(es0, n, x, nb, m0, parts, merged_items@, new_query_items_merging_in_vec@, hit); } }
//@ preloop 3
  let ghost mm = merged_items@; let ghost ps = sub_query_items_merging_in_vec@;
  proof { if good { assert forall|p: Pt| !(#[trigger] inparts(ps.take(0), p)) by { } assert(last_st(mm, ps, 0, nb, mm)); } }
//@ loop 3
  invariant k2 <= ps.len(), sub_query_items_merging_in_vec@ == ps, good ==> last_st(mm, ps, k2 as int, nb, merged_items@),
  decreases ps.len() - k2
//@ loopstart 3
  proof { if good { last_step(es0, x, nb, mm, ps, k2 as int, merged_items@); } }
//@ postloop 3
  proof { assert(ps.take(ps.len() as int) =~= ps); assert(es0.take(es0.len() as int) =~= es0); }
//@ before merged_items.insert(query_item_merging_in, subquery_branch_merging_in);
  proof { push_ent(merged_items@, x, nb); }
//@ end
//@ fn grovedb-query/src/merge.rs Query::merge_conditional_boxed_subquery
//@ spec
  ensures
    *final(self) == (Query { conditional_subquery_branches: final(self).conditional_subquery_branches, ..*old(self) }),
    final(self).items == old(self).items,
    ({
      let b = subquery_branch_merging_in; let had = old(self).conditional_subquery_branches; let has = final(self).conditional_subquery_branches;
      &&& b.subquery is None && b.subquery_path is None ==> has == had
      &&& (b.subquery is Some || b.subquery_path is Some) && wf(query_item_merging_in) && (match had { None => true, Some(m) => disj(m@) }) ==> has is Some && disj(has.unwrap()@)
        && forall|p: Pt| #[trigger] look(has.unwrap()@, p) == comb(match had { None => None, Some(m) => look(m@, p) }, ini(query_item_merging_in, p), b)
    }),
//@ end
#[verifier::external_body] /* contract verified in unit query_insert */
pub fn insert_items(&mut self, items: Vec<QueryItem>) ensures *final(self) == (Query { items: final(self).items, ..*old(self) }) { unimplemented!() }
//@ fn grovedb-query/src/merge.rs Query::merge_with
//@ attr #[verifier::loop_isolation(false)]
//@ spec
  ensures
    final(self).add_parent_tree_on_subquery == (old(self).add_parent_tree_on_subquery || other.add_parent_tree_on_subquery),
    final(self).left_to_right == old(self).left_to_right, final(self).default_subquery_branch == old(self).default_subquery_branch,
    mergeable(*old(self), other) ==> disj(ents(final(self).conditional_subquery_branches))
      && forall|p: Pt| #[trigger] look(ents(final(self).conditional_subquery_branches), p) == whole(look(ents(old(self).conditional_subquery_branches), p), other, p),
//@ at start
  let ghost me = *self; let ghost o = other; let ghost cs = ents(other.conditional_subquery_branches); let ghost good = mergeable(*self, other);
  let ghost had = ents(self.conditional_subquery_branches); let ghost its = other.items@;
  proof { porder(); }
//@ after self.insert_items($x..);
  proof { if good { assert(left(its, cs, 0, items@)); } }
//@ loop 1
  invariant ei <= es@.len(), es@ == cs,
    self.add_parent_tree_on_subquery == (me.add_parent_tree_on_subquery || o.add_parent_tree_on_subquery), self.left_to_right == me.left_to_right, self.default_subquery_branch == me.default_subquery_branch,
    good ==> merging(had, cs, ei as int, ents(self.conditional_subquery_branches)) && left(its, cs, ei as int, items@),
  decreases es@.len() - ei
//@ loopstart 1
  let ghost now = ents(self.conditional_subquery_branches); let ghost rem = items@;
//@ loopend 1
  proof { if good {
    let c = cs[ei - 1]; assert(wf(c.0));
    merging_step(had, cs, ei - 1, now, ents(self.conditional_subquery_branches));
    left_step(its, cs, ei - 1, rem, items@);
  } }
//@ preloop 2
  let ghost n = cs.len() as int; let ghost base = ents(self.conditional_subquery_branches);
  proof { if good { assert(defaulting(base, items@, 0, o.default_subquery_branch, base)); } }
//@ loop 2
  invariant k <= items@.len(),
    self.add_parent_tree_on_subquery == (me.add_parent_tree_on_subquery || o.add_parent_tree_on_subquery), self.left_to_right == me.left_to_right, self.default_subquery_branch == me.default_subquery_branch,
    good ==> defaulting(base, items@, k as int, o.default_subquery_branch, ents(self.conditional_subquery_branches)),
  decreases items@.len() - k
//@ loopstart 2
  let ghost now = ents(self.conditional_subquery_branches);
//@ loopend 2
  proof { if good { defaulting_step(base, items@, k - 1, o.default_subquery_branch, now, ents(self.conditional_subquery_branches)); } }
//@ postloop 2
  proof { if good {
    let fin = ents(self.conditional_subquery_branches);
    assert forall|p: Pt| #[trigger] look(fin, p) == whole(look(had, p), o, p) by {
      assert(items@.take(items@.len() as int) =~= items@);
      assert(look(base, p) == cfold(look(had, p), cs, n, p)); assert(inparts(items@, p) == (inparts(its, p) && !incs(cs, n, p)));
    }
  } }
//@ end
//@ fn grovedb-query/src/merge.rs Query::merge_multiple
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures
    queries@.len() == 0 ==> r.conditional_subquery_branches is None && r.items@.len() == 0,
    queries@.len() > 0 ==> r.left_to_right == queries@[0].left_to_right && r.default_subquery_branch == queries@[0].default_subquery_branch
      && (r.add_parent_tree_on_subquery <==> exists|i: int| 0 <= i < queries@.len() && (#[trigger] queries@[i]).add_parent_tree_on_subquery),
    queries@.len() > 0 && allmergeable(queries@) ==> disj(ents(r.conditional_subquery_branches))
      && forall|p: Pt| #[trigger] look(ents(r.conditional_subquery_branches), p) == wholes(look(ents(queries@[0].conditional_subquery_branches), p), others(queries@), queries@.len() - 1, p),
//@ at start
  let ghost qs = queries@; let ghost gooda = qs.len() > 0 && allmergeable(qs); proof { porder(); }
//@ preloop 1
  let ghost rest = queries@; let ghost first = merged_query; let ghost had0 = ents(merged_query.conditional_subquery_branches);
  proof {
    assert(first == qs[0]); assert(rest =~= others(qs));
    assert forall|i: int| 0 <= i < rest.len() && gooda implies mergeable1(#[trigger] rest[i]) by { if i == 0 { assert(rest[i] == qs[qs.len() - 1]); } else { assert(rest[i] == qs[i]); } }
    assert(anyp(rest, 0) == false);
  }
//@ loop 1
  invariant qk <= rest.len(), queries@ == rest,
    merged_query.left_to_right == first.left_to_right, merged_query.default_subquery_branch == first.default_subquery_branch,
    merged_query.add_parent_tree_on_subquery == (first.add_parent_tree_on_subquery || anyp(rest, qk as int)),
    gooda ==> disj(ents(merged_query.conditional_subquery_branches)) && forall|p: Pt| #[trigger] look(ents(merged_query.conditional_subquery_branches), p) == wholes(look(had0, p), rest, qk as int, p),
  decreases rest.len() - qk
//@ loopstart 1
  let ghost o = rest[qk as int]; let ghost me = merged_query; let ghost cs = ents(o.conditional_subquery_branches);
  let ghost had = ents(me.conditional_subquery_branches); let ghost its = o.items@; let ghost good = gooda;
  proof { if good { assert(mergeable1(o)); } }
//@ after merged_query.insert_items($x..);
  proof { if good { assert(left(its, cs, 0, items@)); } }
//@ loop 2
  invariant ei <= es@.len(), es@ == cs,
    merged_query.add_parent_tree_on_subquery == (me.add_parent_tree_on_subquery || o.add_parent_tree_on_subquery), merged_query.left_to_right == me.left_to_right, merged_query.default_subquery_branch == me.default_subquery_branch,
    good ==> merging(had, cs, ei as int, ents(merged_query.conditional_subquery_branches)) && left(its, cs, ei as int, items@),
  decreases es@.len() - ei
//@ loopstart 2
  let ghost now = ents(merged_query.conditional_subquery_branches); let ghost rem = items@;
//@ loopend 2
  proof { if good {
    let c = cs[ei - 1]; assert(wf(c.0));
    merging_step(had, cs, ei - 1, now, ents(merged_query.conditional_subquery_branches));
    left_step(its, cs, ei - 1, rem, items@);
  } }
//@ preloop 3
  let ghost n = cs.len() as int; let ghost base = ents(merged_query.conditional_subquery_branches);
  proof { if good { assert(defaulting(base, items@, 0, o.default_subquery_branch, base)); } }
//@ loop 3
  invariant k <= items@.len(),
    merged_query.add_parent_tree_on_subquery == (me.add_parent_tree_on_subquery || o.add_parent_tree_on_subquery), merged_query.left_to_right == me.left_to_right, merged_query.default_subquery_branch == me.default_subquery_branch,
    good ==> defaulting(base, items@, k as int, o.default_subquery_branch, ents(merged_query.conditional_subquery_branches)),
  decreases items@.len() - k
//@ loopstart 3
  let ghost now = ents(merged_query.conditional_subquery_branches);
//@ loopend 3
  proof { if good { defaulting_step(base, items@, k - 1, o.default_subquery_branch, now, ents(merged_query.conditional_subquery_branches)); } }
//@ loopend 1
  proof {
    assert(anyp(rest, qk as int) == (anyp(rest, qk - 1) || o.add_parent_tree_on_subquery)) by {
      if anyp(rest, qk as int) { let i = choose|i: int| 0 <= i < qk && (#[trigger] rest[i]).add_parent_tree_on_subquery; if i < qk - 1 { assert(anyp(rest, qk - 1)); } }
    }
    if good {
      let fin = ents(merged_query.conditional_subquery_branches);
      assert forall|p: Pt| #[trigger] look(fin, p) == wholes(look(had0, p), rest, qk as int, p) by {
        assert(items@.take(items@.len() as int) =~= items@);
        assert(look(had, p) == wholes(look(had0, p), rest, qk - 1, p));
        assert(look(base, p) == cfold(look(had, p), cs, n, p)); assert(inparts(items@, p) == (inparts(its, p) && !incs(cs, n, p)));
        assert(look(fin, p) == whole(look(had, p), o, p));
      }
    }
  }
//@ postloop 1
  proof {
    if anyp(rest, rest.len() as int) { let i = choose|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).add_parent_tree_on_subquery; if i == 0 { assert(qs[qs.len() - 1].add_parent_tree_on_subquery); } else { assert(qs[i].add_parent_tree_on_subquery); } }
    if exists|i: int| 0 <= i < qs.len() && (#[trigger] qs[i]).add_parent_tree_on_subquery {
      let i = choose|i: int| 0 <= i < qs.len() && (#[trigger] qs[i]).add_parent_tree_on_subquery;
      if i > 0 { if i == qs.len() - 1 { assert(rest[0] == qs[i]); } else { assert(rest[i] == qs[i]); } assert(anyp(rest, rest.len() as int)); }
    }
  }
//@ end
}
} // verus!
fn main() {}
