// C18: intersecting a sorted list of items with any list of items, key by key. grovedb-query/src/query_item/intersect.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

//@ rules
QueryItemManyIntersectionResult::default() ==> no_parts()
let $v = self.$f.get_or_insert(vec![]); $v.push($x..); ==> push_opt(&mut self.$f, $x);
let $v = self.$f.get_or_insert(vec![]); $v.append(&mut $x); ==> append_opt(&mut self.$f, &mut $x);
for our_item in ours.drain(..) { $b.. } ==> let drained = drain_all(ours); let mut oi: usize = 0; while oi < drained.len() { let our_item = clone_of(&drained[oi]); oi += 1; $b }
for their_item in clone_of(theirs) { $b.. } ==> let mut ti: usize = 0; while ti < theirs.len() { let their_item = clone_of(&theirs[ti]); ti += 1; $b }
for our_partial_item in our_item_split_sections { $b.. } ==> let mut si: usize = 0; while si < our_item_split_sections.len() { let our_partial_item = clone_of(&our_item_split_sections[si]); si += 1; $b }
one_item_pair_intersections.ours.take() ==> take_items(&mut one_item_pair_intersections.ours)
//@ end
pub fn take_items(o: &mut Option<Vec<QueryItem>>) -> (r: Option<Vec<QueryItem>>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body] pub fn drain_all(o: &mut Vec<QueryItem>) -> (r: Vec<QueryItem>) ensures r@ == old(o)@, final(o)@.len() == 0 { o.drain(..).collect() }
pub open spec fn items_of(o: Option<Vec<QueryItem>>) -> Seq<QueryItem> { match o { None => Seq::empty(), Some(v) => v@ } }
// get_or_insert(vec![]) followed by push or append
#[verifier::external_body] pub fn push_opt(o: &mut Option<Vec<QueryItem>>, x: QueryItem) ensures *final(o) is Some, items_of(*final(o)) == items_of(*old(o)).push(x) { o.get_or_insert(vec![]).push(x) }
#[verifier::external_body] pub fn append_opt(o: &mut Option<Vec<QueryItem>>, x: &mut Vec<QueryItem>) ensures *final(o) is Some, items_of(*final(o)) == items_of(*old(o)) + old(x)@, final(x)@.len() == 0 { o.get_or_insert(vec![]).append(x) }
pub open spec fn inparts(parts: Seq<QueryItem>, p: Pt) -> bool { exists|k: int| 0 <= k < parts.len() && ini(#[trigger] parts[k], p) }
pub open spec fn apartall(s: Seq<QueryItem>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> plt(hi(#[trigger] s[i]), lo(#[trigger] s[j]))
}
pub proof fn inparts_push(s: Seq<QueryItem>, x: QueryItem) ensures forall|p: Pt| #[trigger] inparts(s.push(x), p) == (inparts(s, p) || ini(x, p))
{
    assert forall|p: Pt| #[trigger] inparts(s.push(x), p) == (inparts(s, p) || ini(x, p)) by {
        let t = s.push(x);
        if inparts(s, p) { let i = choose|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], p); assert(ini(t[i], p)); }
        if ini(x, p) { assert(ini(t[s.len() as int], p)); }
        if inparts(t, p) { let i = choose|i: int| 0 <= i < t.len() && ini(#[trigger] t[i], p); if i < s.len() { assert(ini(s[i], p)); } }
    }
}
//@ type grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult
//@ type grovedb-query/src/query_item/intersect.rs QueryItemIntersectionResultTheirsLeftovers
pub fn no_parts() -> (r: QueryItemManyIntersectionResult) ensures r.in_both is None, r.ours is None, r.theirs is None { QueryItemManyIntersectionResult { in_both: None, ours: None, theirs: None } }
pub open spec fn opt_seq(o: Option<QueryItem>) -> Seq<QueryItem> { match o { None => Seq::empty(), Some(x) => seq![x] } }
impl QueryItemManyIntersectionResult {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_ours
//@ spec
  ensures *final(self) == (QueryItemManyIntersectionResult { ours: final(self).ours, ..*old(self) }), final(self).ours is Some, items_of(final(self).ours) == items_of(old(self).ours).push(our_query_item),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_theirs
//@ spec
  ensures *final(self) == (QueryItemManyIntersectionResult { theirs: final(self).theirs, ..*old(self) }), final(self).theirs is Some, items_of(final(self).theirs) == items_of(old(self).theirs).push(their_query_item),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::push_ours_and_in_both_from_result
//@ ret r
//@ spec
  ensures
    items_of(final(self).ours) =~= items_of(old(self).ours) + opt_seq(query_item_intersection_result.ours_left) + opt_seq(query_item_intersection_result.ours_right),
    final(self).theirs == old(self).theirs, items_of(final(self).in_both) =~= items_of(old(self).in_both) + opt_seq(query_item_intersection_result.in_both),
    r.theirs_left == query_item_intersection_result.theirs_left, r.theirs_right == query_item_intersection_result.theirs_right,
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult::merge_in
//@ spec
  ensures
    items_of(final(self).ours) =~= items_of(old(self).ours) + items_of(query_item_many_intersection_result.ours),
    items_of(final(self).theirs) =~= items_of(old(self).theirs) + items_of(query_item_many_intersection_result.theirs),
    items_of(final(self).in_both) =~= items_of(old(self).in_both) + items_of(query_item_many_intersection_result.in_both),
//@ end
}

pub type Pts = spec_fn(Pt) -> bool;
pub open spec fn upto(ts: Seq<QueryItem>, n: int) -> Pts { |p: Pt| inparts(ts.take(n), p) }
pub open spec fn of_item(t: QueryItem) -> Pts { |p: Pt| ini(t, p) }
// one item minus some points, and the part of it among them
pub open spec fn minus(a: QueryItem, t: Pts, r: Seq<QueryItem>) -> bool {
    &&& apartall(r) && forall|p: Pt| #[trigger] inparts(r, p) == (ini(a, p) && !t(p))
    &&& forall|i: int| 0 <= i < r.len() ==> ple(lo(a), lo(#[trigger] r[i])) && ple(hi(r[i]), hi(a))
}
pub open spec fn common(a: QueryItem, t: Pts, b: Seq<QueryItem>) -> bool { forall|p: Pt| #[trigger] inparts(b, p) == (ini(a, p) && t(p)) }
pub proof fn inparts_add(r: Seq<QueryItem>, x: Seq<QueryItem>) ensures forall|p: Pt| #[trigger] inparts(r + x, p) == (inparts(r, p) || inparts(x, p))
{
    let z = r + x;
    assert forall|p: Pt| #[trigger] inparts(z, p) == (inparts(r, p) || inparts(x, p)) by {
        if inparts(r, p) { let i = choose|i: int| 0 <= i < r.len() && ini(#[trigger] r[i], p); assert(ini(z[i], p)); }
        if inparts(x, p) { let i = choose|i: int| 0 <= i < x.len() && ini(#[trigger] x[i], p); assert(ini(z[r.len() + i], p)); }
        if inparts(z, p) { let i = choose|i: int| 0 <= i < z.len() && ini(#[trigger] z[i], p); if i < r.len() { assert(ini(r[i], p)); } else { assert(ini(x[i - r.len()], p)); } }
    }
}
pub proof fn inparts_opt(o: Option<QueryItem>) ensures forall|p: Pt| #[trigger] inparts(opt_seq(o), p) == inoi(o, p)
{ assert forall|p: Pt| #[trigger] inparts(opt_seq(o), p) == inoi(o, p) by { if inoi(o, p) { assert(ini(opt_seq(o)[0], p)); } } }
pub proof fn pieces_minus(a: QueryItem, t: QueryItem, x: QueryItemIntersectionResult)
    requires wf(a), wf(t), pieces(a, t, x) ensures minus(a, of_item(t), opt_seq(x.ours_left) + opt_seq(x.ours_right)), common(a, of_item(t), opt_seq(x.in_both))
{
    porder();
    let r = opt_seq(x.ours_left) + opt_seq(x.ours_right);
    inparts_add(opt_seq(x.ours_left), opt_seq(x.ours_right)); inparts_opt(x.ours_left); inparts_opt(x.ours_right); inparts_opt(x.in_both);
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(a, p) && !ini(t, p)) by { assert(inparts(r, p) == (inoi(x.ours_left, p) || inoi(x.ours_right, p))); }
    assert forall|i: int| 0 <= i < r.len() implies wf(#[trigger] r[i]) && ple(lo(a), lo(r[i])) && ple(hi(r[i]), hi(a)) by {
        if x.ours_left is Some && i == 0 { let y = x.ours_left->0; assert(inoi(x.ours_left, lo(y)) && inoi(x.ours_left, hi(y))); }
        else { let y = x.ours_right->0; assert(inoi(x.ours_right, lo(y)) && inoi(x.ours_right, hi(y))); }
    }
    if x.ours_left is Some && x.ours_right is Some { assert(inoi(x.ours_left, hi(x.ours_left->0))); assert(inoi(x.ours_right, lo(x.ours_right->0))); }
}
// the first n of some items minus some points; what of them is among the points
pub open spec fn sofar(os: Seq<QueryItem>, n: int, t: Pts, r: Seq<QueryItem>) -> bool {
    &&& apartall(r) && forall|p: Pt| #[trigger] inparts(r, p) == (inparts(os.take(n), p) && !t(p))
    &&& forall|i: int, j: int| 0 <= i < r.len() && n <= j < os.len() ==> plt(hi(#[trigger] r[i]), lo(#[trigger] os[j]))
}
pub open spec fn both(os: Seq<QueryItem>, n: int, t: Pts, before: Seq<QueryItem>, b: Seq<QueryItem>) -> bool
{ forall|p: Pt| #[trigger] inparts(b, p) == (inparts(before, p) || inparts(os.take(n), p) && t(p)) }
pub proof fn sofar_step(os: Seq<QueryItem>, n: int, t: Pts, r: Seq<QueryItem>, x: Seq<QueryItem>)
    requires 0 <= n < os.len(), apartall(os), sofar(os, n, t, r), minus(os[n], t, x) ensures sofar(os, n + 1, t, r + x)
{
    porder();
    let z = r + x;
    assert(os.take(n + 1) =~= os.take(n).push(os[n])); inparts_push(os.take(n), os[n]); inparts_add(r, x);
    assert forall|p: Pt| #[trigger] inparts(z, p) == (inparts(os.take(n + 1), p) && !t(p)) by { assert(inparts(z, p) == (inparts(r, p) || inparts(x, p))); }
    assert forall|i: int| 0 <= i < z.len() implies wf(#[trigger] z[i]) by { if i >= r.len() { assert(wf(x[i - r.len()])); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies plt(hi(#[trigger] z[i]), lo(#[trigger] z[j])) by {
        if i >= r.len() { assert(plt(hi(x[i - r.len()]), lo(x[j - r.len()]))); } else if j >= r.len() { assert(plt(hi(r[i]), lo(os[n]))); assert(ple(lo(os[n]), lo(x[j - r.len()]))); }
    }
    assert forall|i: int, j: int| 0 <= i < z.len() && n + 1 <= j < os.len() implies plt(hi(#[trigger] z[i]), lo(#[trigger] os[j])) by {
        assert(plt(hi(os[n]), lo(os[j]))); if i >= r.len() { assert(ple(hi(x[i - r.len()]), hi(os[n]))); } else { assert(plt(hi(r[i]), lo(os[j]))); }
    }
}
pub proof fn both_step(os: Seq<QueryItem>, n: int, t: Pts, before: Seq<QueryItem>, b: Seq<QueryItem>, x: Seq<QueryItem>)
    requires 0 <= n < os.len(), both(os, n, t, before, b), common(os[n], t, x) ensures both(os, n + 1, t, before, b + x)
{
    assert(os.take(n + 1) =~= os.take(n).push(os[n])); inparts_push(os.take(n), os[n]); inparts_add(b, x);
    assert forall|p: Pt| #[trigger] inparts(b + x, p) == (inparts(before, p) || inparts(os.take(n + 1), p) && t(p)) by { assert(inparts(b + x, p) == (inparts(b, p) || inparts(x, p))); }
}
// what is left of a cut item at the sections still ahead
pub open spec fn ahead(ss: Seq<QueryItem>, n: int, t: QueryItem, w: Option<QueryItem>) -> bool {
    &&& owf(w)
    &&& forall|j: int, p: Pt| n <= j < ss.len() && #[trigger] ini(ss[j], p) ==> ini(t, p) == inoi(w, p)
}
pub proof fn section(ss: Seq<QueryItem>, n: int, t: QueryItem, w: QueryItem, x: QueryItemIntersectionResult)
    requires 0 <= n < ss.len(), apartall(ss), wf(t), ahead(ss, n, t, Some(w)), pieces(ss[n], w, x)
    ensures minus(ss[n], of_item(t), opt_seq(x.ours_left) + opt_seq(x.ours_right)), common(ss[n], of_item(t), opt_seq(x.in_both)), ahead(ss, n + 1, t, x.theirs_right)
{
    porder();
    pieces_minus(ss[n], w, x);
    let r = opt_seq(x.ours_left) + opt_seq(x.ours_right);
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(ss[n], p) && !ini(t, p)) by { assert(inparts(r, p) == (ini(ss[n], p) && !of_item(w)(p))); if ini(ss[n], p) { assert(inoi(Some(w), p) == ini(t, p)); } }
    let b = opt_seq(x.in_both);
    assert forall|p: Pt| #[trigger] inparts(b, p) == (ini(ss[n], p) && ini(t, p)) by { assert(inparts(b, p) == (ini(ss[n], p) && of_item(w)(p))); if ini(ss[n], p) { assert(inoi(Some(w), p) == ini(t, p)); } }
    assert forall|j: int, p: Pt| n + 1 <= j < ss.len() && #[trigger] ini(ss[j], p) implies ini(t, p) == inoi(x.theirs_right, p) by {
        assert(plt(hi(ss[n]), lo(ss[j])));
        assert(inoi(x.theirs_right, p) == (ini(w, p) && plt(hi(ss[n]), p)));
        assert(ini(t, p) == inoi(Some(w), p));
    }
}
// a section nothing is left for
pub proof fn untouched(ss: Seq<QueryItem>, n: int, t: QueryItem)
    requires 0 <= n < ss.len(), apartall(ss), ahead(ss, n, t, None) ensures minus(ss[n], of_item(t), seq![ss[n]]), common(ss[n], of_item(t), Seq::empty())
{
    porder();
    let r = seq![ss[n]];
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(ss[n], p) && !ini(t, p)) by { if ini(ss[n], p) { assert(ini(r[0], p)); assert(ini(t, p) == inoi(None::<QueryItem>, p)); } }
    assert forall|p: Pt| #[trigger] inparts(Seq::<QueryItem>::empty(), p) == (ini(ss[n], p) && ini(t, p)) by { if ini(ss[n], p) { assert(ini(t, p) == inoi(None::<QueryItem>, p)); } }
}
// after one more of their items
pub proof fn next_theirs(o: QueryItem, ts: Seq<QueryItem>, n: int, ss: Seq<QueryItem>, b0: Seq<QueryItem>, r: Seq<QueryItem>, b: Seq<QueryItem>)
    requires 0 <= n < ts.len(), minus(o, upto(ts, n), ss), common(o, upto(ts, n), b0), sofar(ss, ss.len() as int, of_item(ts[n]), r), both(ss, ss.len() as int, of_item(ts[n]), b0, b),
        forall|i: int| 0 <= i < r.len() ==> ple(lo(o), lo(#[trigger] r[i])) && ple(hi(r[i]), hi(o)),
    ensures minus(o, upto(ts, n + 1), r), common(o, upto(ts, n + 1), b)
{
    assert(ts.take(n + 1) =~= ts.take(n).push(ts[n])); inparts_push(ts.take(n), ts[n]); assert(ss.take(ss.len() as int) =~= ss);
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(o, p) && !upto(ts, n + 1)(p)) by { assert(inparts(ss, p) == (ini(o, p) && !upto(ts, n)(p))); assert(inparts(ts.take(n + 1), p) == (inparts(ts.take(n), p) || ini(ts[n], p))); }
    assert forall|p: Pt| #[trigger] inparts(b, p) == (ini(o, p) && upto(ts, n + 1)(p)) by { assert(inparts(ss, p) == (ini(o, p) && !upto(ts, n)(p))); assert(inparts(b0, p) == (ini(o, p) && upto(ts, n)(p))); assert(inparts(ts.take(n + 1), p) == (inparts(ts.take(n), p) || ini(ts[n], p))); }
}
impl QueryItem {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItem::intersect_many_ordered
//@ attr #[verifier::loop_isolation(false)]
//@ rule1 result.merge_in($x); ==> let ghost one = $x; result.merge_in($x);
//@ rule1 result.merge_in($x) } ==> let ghost one = $x; result.merge_in($x); }
//@ ret r
//@ spec
  requires apartall(old(ours)@), forall|i: int| 0 <= i < theirs@.len() ==> wf(#[trigger] theirs@[i]),
  ensures final(ours)@.len() == 0, apartall(items_of(r.ours)),
    forall|p: Pt| #[trigger] inparts(items_of(r.ours), p) == (inparts(old(ours)@, p) && !inparts(theirs@, p)),
    forall|p: Pt| #[trigger] inparts(items_of(r.in_both), p) == (inparts(old(ours)@, p) && inparts(theirs@, p)),
//@ at start
  let ghost os = ours@; let ghost ts = theirs@; let ghost all = upto(ts, ts.len() as int);
  proof { porder(); assert(os.take(os.len() as int) =~= os); assert(ts.take(ts.len() as int) =~= ts); }
//@ preloop 1
  proof { assert(sofar(os, 0, all, items_of(result.ours))); assert(both(os, 0, all, Seq::empty(), items_of(result.in_both))); }
//@ loop 1
  invariant oi <= os.len(), drained@ == os, ours@.len() == 0, sofar(os, oi as int, all, items_of(result.ours)), both(os, oi as int, all, Seq::empty(), items_of(result.in_both)),
  decreases os.len() - oi
//@ loopstart 1
  let ghost rb = items_of(result.ours); let ghost bb = items_of(result.in_both); let ghost o = os[oi as int];
//@ preloop 2
  proof {
    let r = items_of(one_item_pair_intersections.ours); assert(r =~= seq![o]); assert(ts.take(0) =~= Seq::empty());
    assert forall|p: Pt| #[trigger] inparts(r, p) == (ini(o, p) && !upto(ts, 0)(p)) by { if ini(o, p) { assert(ini(r[0], p)); } }
    assert(items_of(one_item_pair_intersections.in_both) =~= Seq::empty());
    assert(common(o, upto(ts, 0), items_of(one_item_pair_intersections.in_both)));
  }
//@ loop 2
  invariant ti <= ts.len(), o == os[oi - 1], minus(o, upto(ts, ti as int), items_of(one_item_pair_intersections.ours)), common(o, upto(ts, ti as int), items_of(one_item_pair_intersections.in_both)),
  decreases ts.len() - ti
//@ loopstart 2
  let ghost ss = items_of(one_item_pair_intersections.ours); let ghost b0 = items_of(one_item_pair_intersections.in_both); let ghost t = ts[ti as int];
  proof { if one_item_pair_intersections.ours is None { assert(ss.len() == 0); assert(sofar(ss, 0, of_item(t), ss)); assert(both(ss, 0, of_item(t), b0, b0)); next_theirs(o, ts, ti as int, ss, b0, ss, b0); } }
//@ preloop 3
  proof { assert(items_of(one_item_pair_intersections.ours) =~= Seq::empty()); assert(sofar(ss, 0, of_item(t), items_of(one_item_pair_intersections.ours))); assert(both(ss, 0, of_item(t), b0, items_of(one_item_pair_intersections.in_both))); assert(ahead(ss, 0, t, maybe_temp_their_item)); }
//@ loop 3
  invariant si <= ss.len(), our_item_split_sections@ == ss, t == ts[ti - 1], sofar(ss, si as int, of_item(t), items_of(one_item_pair_intersections.ours)), both(ss, si as int, of_item(t), b0, items_of(one_item_pair_intersections.in_both)),
    ahead(ss, si as int, t, maybe_temp_their_item),
    forall|i: int| 0 <= i < items_of(one_item_pair_intersections.ours).len() ==> ple(lo(o), lo(#[trigger] items_of(one_item_pair_intersections.ours)[i])) && ple(hi(items_of(one_item_pair_intersections.ours)[i]), hi(o)),
  decreases ss.len() - si
//@ loopstart 3
  let ghost r0 = items_of(one_item_pair_intersections.ours); let ghost c0 = items_of(one_item_pair_intersections.in_both);
  proof { if maybe_temp_their_item is None { untouched(ss, si as int, t); sofar_step(ss, si as int, of_item(t), r0, seq![ss[si as int]]); both_step(ss, si as int, of_item(t), b0, c0, Seq::empty()); assert(r0 + seq![ss[si as int]] =~= r0.push(ss[si as int])); assert(c0 + Seq::<QueryItem>::empty() =~= c0); } }
//@ after let intersection_result = our_partial_item.intersect(&temp_their_item);
  let ghost ix = intersection_result;
  proof { section(ss, si - 1, t, temp_their_item, ix); let x = opt_seq(ix.ours_left) + opt_seq(ix.ours_right); sofar_step(ss, si - 1, of_item(t), r0, x); both_step(ss, si - 1, of_item(t), b0, c0, opt_seq(ix.in_both)); assert(r0 + opt_seq(ix.ours_left) + opt_seq(ix.ours_right) =~= r0 + x);
    assert forall|i: int| 0 <= i < (r0 + x).len() implies ple(lo(o), lo(#[trigger] (r0 + x)[i])) && ple(hi((r0 + x)[i]), hi(o)) by { if i < r0.len() { assert(ple(lo(o), lo(r0[i]))); } else { assert(ple(lo(ss[si - 1]), lo(x[i - r0.len()]))); assert(ple(lo(o), lo(ss[si - 1]))); } } }
//@ postloop 3
  proof { next_theirs(o, ts, ti - 1, ss, b0, items_of(one_item_pair_intersections.ours), items_of(one_item_pair_intersections.in_both)); }
//@ loopend 1
  proof { sofar_step(os, oi - 1, all, rb, items_of(one.ours)); both_step(os, oi - 1, all, Seq::empty(), bb, items_of(one.in_both)); assert(items_of(result.ours) =~= rb + items_of(one.ours)); assert(items_of(result.in_both) =~= bb + items_of(one.in_both)); }
//@ end
}
} // verus!
fn main() {}
