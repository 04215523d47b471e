// C19: inserting into a query keeps disjoint sorted items covering the union. grovedb-query/src/insert.rs, merge.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted stand-ins --------------------------------------------------------
// what this unit does not look into
#[verifier::external_body] pub struct Opaque { x: u8 }
pub type SubqueryBranch = Opaque;
pub type Path = Vec<Vec<u8>>;
// an insertion-ordered map, as its list of entries
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { x: Vec<(K, V)> }
#[verifier::external_body] pub fn entries<K, V>(m: IndexMap<K, V>) -> (r: Vec<(K, V)>) { unimplemented!() }
// std's binary search over the items' order: where no item is equal, the only position that keeps the order
pub open spec fn icmp(a: QueryItem, b: QueryItem) -> Ordering { if lo(a) == lo(b) { pcmp(hi(a), hi(b)) } else { pcmp(lo(a), lo(b)) } }
#[verifier::external_body] pub fn bsearch(v: &Vec<QueryItem>, x: &QueryItem) -> (r: usize)
    ensures r <= v@.len(),
        (forall|i: int, j: int| 0 <= i < j < v@.len() ==> icmp(#[trigger] v@[i], #[trigger] v@[j]) is Less) && (forall|i: int| 0 <= i < v@.len() ==> !(icmp(#[trigger] v@[i], *x) is Equal))
        ==> (forall|i: int| 0 <= i < r ==> icmp(#[trigger] v@[i], *x) is Less) && (forall|i: int| r <= i < v@.len() ==> icmp(#[trigger] v@[i], *x) is Greater)
{ unimplemented!() }
//@ rules
our_item == &item ==> qi_eq(our_item, &item)
self.items = self.items.iter().filter_map(|our_item| { $b.. }).collect(); ==> let mut kept: Vec<QueryItem> = Vec::new(); let mut fi: usize = 0; while fi < self.items.len() { let our_item = &self.items[fi]; fi += 1; let keep: Option<QueryItem> = { $b }; match keep { Some(kept_item) => { kept.push(kept_item); } None => {} } } self.items = kept;
self.items.binary_search(&item).unwrap_or_else(|e| e) ==> bsearch(&self.items, &item)
for $q in queries { $b.. } ==> let mut qk: usize = 0; while qk < queries.len() { let $q = clone_of(&queries[qk]); qk += 1; $b }
for ($ci, $cb) in conditional_subquery_branches { $b.. } ==> let es = entries(conditional_subquery_branches); let mut ei: usize = 0; while ei < es.len() { let ($ci, $cb) = clone_of(&es[ei]); ei += 1; $b }
for item in items { $x.merge_conditional_boxed_subquery($y..); } ==> let mut k: usize = 0; while k < items.len() { let item = clone_of(&items[k]); k += 1; $x.merge_conditional_boxed_subquery($y); }
clone_of(items) ==> clone_of(&items)
clone_of(conditional_item) ==> clone_of(&conditional_item)
clone_of(default_subquery_branch) ==> clone_of(&default_subquery_branch)
QueryItem::intersect_many_ordered ==> intersect_many_ordered
intersection_result.ours.unwrap_or_default() ==> (match intersection_result.ours { Some(v) => v, None => Vec::new() })
Query::new() ==> empty_query()
for item in items { self.insert_item(item) } ==> let mut k: usize = 0; while k < items.len() { let item = clone_of(&items[k]); k += 1; self.insert_item(item); }
//@ end

// ---- item lists -----------------------------------------------------------------
pub open spec fn sorted(s: Seq<QueryItem>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> plt(hi(#[trigger] s[i]), lo(#[trigger] s[j]))
}
pub open spec fn allwf(s: Seq<QueryItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
pub open spec fn cov(s: Seq<QueryItem>, p: Pt) -> bool { exists|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], p) }
pub proof fn cov_push(s: Seq<QueryItem>, x: QueryItem) ensures forall|p: Pt| #[trigger] cov(s.push(x), p) == (cov(s, p) || ini(x, p)), sorted(s) && wf(x) && (forall|i: int| 0 <= i < s.len() ==> plt(hi(#[trigger] s[i]), lo(x))) ==> sorted(s.push(x)),
{
    assert forall|p: Pt| #[trigger] cov(s.push(x), p) == (cov(s, p) || ini(x, p)) by {
        let t = s.push(x);
        if cov(s, p) { let i = choose|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], p); assert(ini(t[i], p)); }
        if ini(x, p) { assert(ini(t[s.len() as int], p)); }
        if cov(t, p) { let i = choose|i: int| 0 <= i < t.len() && ini(#[trigger] t[i], p); if i < s.len() { assert(ini(s[i], p)); } }
    }
}
pub proof fn cov_insert(s: Seq<QueryItem>, k: int, x: QueryItem)
    requires 0 <= k <= s.len()
    ensures forall|p: Pt| #[trigger] cov(s.insert(k, x), p) == (cov(s, p) || ini(x, p)),
        sorted(s) && wf(x) && (forall|i: int| 0 <= i < k ==> plt(hi(#[trigger] s[i]), lo(x))) && (forall|i: int| k <= i < s.len() ==> plt(hi(x), lo(#[trigger] s[i]))) ==> sorted(s.insert(k, x)),
{
    let t = s.insert(k, x);
    assert forall|p: Pt| #[trigger] cov(t, p) == (cov(s, p) || ini(x, p)) by {
        if cov(s, p) { let i = choose|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], p); if i < k { assert(ini(t[i], p)); } else { assert(ini(t[i + 1], p)); } }
        if ini(x, p) { assert(ini(t[k], p)); }
        if cov(t, p) { let i = choose|i: int| 0 <= i < t.len() && ini(#[trigger] t[i], p); if i < k { assert(ini(s[i], p)); } else if i > k { assert(ini(s[i - 1], p)); } }
    }
    if sorted(s) && wf(x) && (forall|i: int| 0 <= i < k ==> plt(hi(#[trigger] s[i]), lo(x))) && (forall|i: int| k <= i < s.len() ==> plt(hi(x), lo(#[trigger] s[i]))) {
        assert forall|i: int| 0 <= i < t.len() implies wf(#[trigger] t[i]) by { if i < k { assert(t[i] == s[i]); } else if i > k { assert(t[i] == s[i - 1]); } }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies plt(hi(#[trigger] t[i]), lo(#[trigger] t[j])) by {
            if i < k { assert(t[i] == s[i]); } else if i > k { assert(t[i] == s[i - 1]); }
            if j < k { assert(t[j] == s[j]); } else if j > k { assert(t[j] == s[j - 1]); }
        }
    }
}
// keys selected by a list of items
pub open spec fn selects(s: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && sel(#[trigger] s[i], k) }
pub proof fn selects_cov(s: Seq<QueryItem>, k: Seq<u8>) ensures selects(s, k) == cov(s, Pt::At(k, 0))
{
    if selects(s, k) { let i = choose|i: int| 0 <= i < s.len() && sel(#[trigger] s[i], k); lemma_sel(s[i]); assert(ini(s[i], Pt::At(k, 0))); }
    if cov(s, Pt::At(k, 0)) { let i = choose|i: int| 0 <= i < s.len() && ini(#[trigger] s[i], Pt::At(k, 0)); lemma_sel(s[i]); assert(sel(s[i], k)); }
}

//@ type grovedb-query/src/query.rs Query
pub open spec fn qcov(s: Seq<Query>, p: Pt) -> bool { exists|i: int| 0 <= i < s.len() && cov((#[trigger] s[i]).items@, p) }
pub proof fn qcov_push(s: Seq<Query>, x: Query, p: Pt) ensures qcov(s.push(x), p) == (qcov(s, p) || cov(x.items@, p))
{
    let t = s.push(x);
    if qcov(s, p) { let i = choose|i: int| 0 <= i < s.len() && cov((#[trigger] s[i]).items@, p); assert(t[i] == s[i]); }
    if cov(x.items@, p) { assert(t[s.len() as int] == x); }
    if qcov(t, p) { let i = choose|i: int| 0 <= i < t.len() && cov((#[trigger] t[i]).items@, p); if i < s.len() { assert(t[i] == s[i]); } }
}
pub proof fn lemma_swap(a: Seq<Query>, r: Seq<Query>, p: Pt)
    requires a.len() > 0, r.len() == a.len() - 1, a.len() > 1 ==> r == a.update(0, a.last()).drop_last()
    ensures qcov(a, p) == (cov(a[0].items@, p) || qcov(r, p))
{
    if qcov(a, p) { let i = choose|i: int| 0 <= i < a.len() && cov((#[trigger] a[i]).items@, p); if i == a.len() - 1 && i > 0 { assert(r[0] == a[i]); } else if i > 0 { assert(r[i] == a[i]); } }
    if qcov(r, p) { let i = choose|i: int| 0 <= i < r.len() && cov((#[trigger] r[i]).items@, p); if i == 0 { assert(r[0] == a[a.len() - 1]); } else { assert(r[i] == a[i]); } }
    if cov(a[0].items@, p) { assert(qcov(a, p)); }
}
// what merging does to the conditional branches' items; used only to bound what it touches
#[verifier::external_body] pub fn intersect_many_ordered(ours: &mut Vec<QueryItem>, theirs: Vec<QueryItem>) -> (r: QueryItemManyIntersectionResult) { unimplemented!() }
#[verifier::external_body] pub fn empty_query() -> (r: Query) ensures r.items@.len() == 0 { unimplemented!() }
//@ type grovedb-query/src/query_item/intersect.rs QueryItemManyIntersectionResult
impl Query {
//@ fn grovedb-query/src/insert.rs Query::insert_item
//@ attr #[verifier::loop_isolation(false)]
//@ spec
  ensures
    sorted(old(self).items@) && wf(item) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || ini(item, p)),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ at start
  let ghost orig = self.items@; let ghost it0 = item; let ghost good = sorted(orig) && wf(item); let ghost me = *self; let ghost before = item;
  proof { porder(); }
//@ loop 1
  invariant fi <= orig.len(), self.items@ == orig, *self == me,
    good == (sorted(orig) && wf(it0)),
    good ==> wf(item) && sorted(kept@) && (forall|i: int, j: int| 0 <= i < kept@.len() && fi <= j < orig.len() ==> plt(hi(#[trigger] kept@[i]), lo(#[trigger] orig[j])))
      && (forall|i: int| 0 <= i < kept@.len() ==> !meet(#[trigger] kept@[i], item))
      && (forall|p: Pt| #![trigger cov(kept@, p)] #![trigger ini(item, p)] (cov(kept@, p) || ini(item, p)) == (cov(orig.take(fi as int), p) || ini(it0, p))),
  decreases orig.len() - fi
//@ loopstart 1
  proof { before = item; }
  let ghost bk = kept@;
//@ loopend 1
  proof {
    let y = orig[fi - 1];
    assert(orig.take(fi as int) =~= orig.take(fi - 1).push(y));
    cov_push(orig.take(fi - 1), y);
    if good {
      assert(wf(y));
      if kept@.len() == bk.len() {
        assert(kept@ =~= bk);
        assert forall|p: Pt| #[trigger] ini(item, p) == (ini(before, p) || ini(y, p)) by { if meet(y, before) { merge_is_union(before, y, item); } }
        assert forall|i: int| 0 <= i < kept@.len() implies !meet(#[trigger] kept@[i], item) by { assert(!meet(bk[i], before)); assert(plt(hi(bk[i]), lo(y))); assert(wf(bk[i])); }
        assert forall|p: Pt| #![trigger cov(kept@, p)] #![trigger ini(item, p)] (cov(kept@, p) || ini(item, p)) == (cov(orig.take(fi as int), p) || ini(it0, p)) by { assert(cov(bk, p) || ini(before, p) == (cov(orig.take(fi - 1), p) || ini(it0, p))); }
      } else {
        assert(kept@ =~= bk.push(y));
        cov_push(bk, y);
        assert forall|i: int| 0 <= i < kept@.len() implies !meet(#[trigger] kept@[i], item) by { if i < bk.len() { assert(!meet(bk[i], before)); } }
        assert forall|i: int, j: int| 0 <= i < kept@.len() && fi <= j < orig.len() implies plt(hi(#[trigger] kept@[i]), lo(#[trigger] orig[j])) by { if i < bk.len() { assert(kept@[i] == bk[i]); } }
        assert(sorted(kept@));
      }
    }
  }
//@ after self.items.insert(pos, item);
  proof {
    assert(orig.take(orig.len() as int) =~= orig);
    if good {
      cov_insert(fin, pos as int, item);
      assert(self.items@ == fin.insert(pos as int, item));
    }
  }
//@ before let pos = $x..;
  let ghost fin = self.items@;
  proof {
    if good {
      assert forall|i: int, j: int| 0 <= i < j < fin.len() implies icmp(#[trigger] fin[i], #[trigger] fin[j]) is Less by { assert(plt(hi(fin[i]), lo(fin[j]))); assert(wf(fin[i])); assert(plt(lo(fin[i]), lo(fin[j]))); }
      assert forall|i: int| 0 <= i < fin.len() implies !(icmp(#[trigger] fin[i], item) is Equal) by { assert(!meet(fin[i], item)); }
      assert forall|i: int| 0 <= i < fin.len() && (icmp(#[trigger] fin[i], item) is Less) implies plt(hi(fin[i]), lo(item)) by { assert(!meet(fin[i], item)); assert(wf(fin[i])); }
      assert forall|i: int| 0 <= i < fin.len() && (icmp(#[trigger] fin[i], item) is Greater) implies plt(hi(item), lo(fin[i])) by { assert(!meet(fin[i], item)); assert(wf(fin[i])); }
    }
  }
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_items
//@ attr #[verifier::loop_isolation(false)]
//@ spec
  ensures
    sorted(old(self).items@) && allwf(items@) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || cov(items@, p)),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ at start
  let ghost orig = self.items@; let ghost me = *self; let ghost good = sorted(orig) && allwf(items@);
//@ loop 1
  invariant k <= items@.len(), *self == (Query { items: self.items, ..me }), good == (sorted(orig) && allwf(items@)), 
    good ==> sorted(self.items@) && forall|p: Pt| #[trigger] cov(self.items@, p) == (cov(orig, p) || cov(items@.take(k as int), p)),
  decreases items@.len() - k
//@ loopend 1
  proof { assert(items@.take(k as int) =~= items@.take(k - 1).push(items@[k - 1])); cov_push(items@.take(k - 1), items@[k - 1]); }
//@ at end
  proof { assert(items@.take(items@.len() as int) =~= items@); }
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_key
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(key@, 0), Pt::At(key@, 0)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(key@, 0), p) && ple(p, Pt::At(key@, 0)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.start@, 0), Pt::At(range.end@, -1)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.start@, 0), p) && ple(p, Pt::At(range.end@, -1)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_inclusive
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.s@, 0), Pt::At(range.e@, 0)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.s@, 0), p) && ple(p, Pt::At(range.e@, 0)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_to_inclusive
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::Neg, Pt::At(range.end@, 0)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::Neg, p) && ple(p, Pt::At(range.end@, 0)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_from
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.start@, 0), Pt::Pos) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.start@, 0), p) && ple(p, Pt::Pos))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_to
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::Neg, Pt::At(range.end@, -1)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::Neg, p) && ple(p, Pt::At(range.end@, -1)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_after
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.start@, 1), Pt::Pos) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.start@, 1), p) && ple(p, Pt::Pos))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_after_to
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.start@, 1), Pt::At(range.end@, -1)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.start@, 1), p) && ple(p, Pt::At(range.end@, -1)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_range_after_to_inclusive
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::At(range.s@, 1), Pt::At(range.e@, 0)) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::At(range.s@, 1), p) && ple(p, Pt::At(range.e@, 0)))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_all
//@ spec
  ensures
    sorted(old(self).items@) && ple(Pt::Neg, Pt::Pos) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || (ple(Pt::Neg, p) && ple(p, Pt::Pos))),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ end
//@ fn grovedb-query/src/insert.rs Query::insert_keys
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst for key in keys { $b.. } ==> let mut k: usize = 0; while k < keys.len() { let key = clone_of(&keys[k]); k += 1; $b }
//@ spec
  ensures
    sorted(old(self).items@) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || exists|i: int| 0 <= i < keys@.len() && p == Pt::At(#[trigger] keys@[i]@, 0)),
    *final(self) == (Query { items: final(self).items, ..*old(self) }),
//@ at start
  let ghost orig = self.items@; let ghost me = *self; proof { porder(); }
//@ loop 1
  invariant k <= keys@.len(), *self == (Query { items: self.items, ..me }),
    sorted(orig) ==> sorted(self.items@) && forall|p: Pt| #[trigger] cov(self.items@, p) == (cov(orig, p) || exists|i: int| 0 <= i < k && p == Pt::At(#[trigger] keys@[i]@, 0)),
  decreases keys@.len() - k
//@ loopend 1
  proof {
    assert(ini(QueryItem::Key(keys@[k - 1]), Pt::At(keys@[k - 1]@, 0)));
    assert forall|p: Pt| #[trigger] ini(QueryItem::Key(keys@[k - 1]), p) == (p == Pt::At(keys@[k - 1]@, 0)) by { }
  }
//@ end
// the rest of merging: proved (frame) in unit query_cond
#[verifier::external_body] /* contract verified in unit query_cond */
pub fn merge_conditional_boxed_subquery(&mut self, query_item_merging_in: QueryItem, subquery_branch_merging_in: SubqueryBranch)
    ensures final(self).items == old(self).items { unimplemented!() }
//@ fn grovedb-query/src/merge.rs Query::merge_with
//@ attr #[verifier::loop_isolation(false)]
//@ spec
  ensures
    sorted(old(self).items@) && allwf(other.items@) ==> sorted(final(self).items@)
      && forall|p: Pt| #[trigger] cov(final(self).items@, p) == (cov(old(self).items@, p) || cov(other.items@, p)),
//@ after self.insert_items($x..);
  let ghost mid = self.items;
//@ loop 1
  invariant self.items == mid, ei <= es@.len(),
  decreases es@.len() - ei
//@ loop 2
  invariant self.items == mid, k <= items@.len(),
  decreases items@.len() - k
//@ end
//@ fn grovedb-query/src/merge.rs Query::merge_multiple
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures
    queries@.len() == 0 ==> r.items@.len() == 0,
    queries@.len() > 0 && sorted(queries@[0].items@) && (forall|i: int| 0 < i < queries@.len() ==> allwf(#[trigger] queries@[i].items@)) ==> sorted(r.items@)
      && forall|p: Pt| #[trigger] cov(r.items@, p) == qcov(queries@, p),
//@ at start
  let ghost qs = queries@; let ghost good = qs.len() > 0 && sorted(qs[0].items@) && forall|i: int| 0 < i < qs.len() ==> allwf(#[trigger] qs[i].items@);
//@ preloop 1
  let ghost rest = queries@;
  proof {
    if qs.len() > 1 { assert(rest =~= qs.update(0, qs.last()).drop_last()); }
    assert forall|i: int| 0 <= i < rest.len() && good implies allwf((#[trigger] rest[i]).items@) by { if i == 0 { assert(rest[i] == qs[qs.len() - 1]); } else { assert(rest[i] == qs[i]); } }
    assert(qs[0] == merged_query);
    assert forall|p: Pt| #[trigger] qcov(qs, p) == (cov(qs[0].items@, p) || qcov(rest, p)) by { lemma_swap(qs, rest, p); }
  }
//@ loop 1
  invariant qk <= rest.len(), queries@ == rest,
    good ==> sorted(merged_query.items@) && forall|p: Pt| #[trigger] cov(merged_query.items@, p) == (cov(qs[0].items@, p) || qcov(rest.take(qk as int), p)),
  decreases rest.len() - qk
//@ after merged_query.insert_items($x..);
  let ghost mid = merged_query.items;
//@ loop 2
  invariant merged_query.items == mid, ei <= es@.len(),
  decreases es@.len() - ei
//@ loop 3
  invariant merged_query.items == mid, k <= items@.len(),
  decreases items@.len() - k
//@ loopend 1
  proof {
    assert(rest.take(qk as int) =~= rest.take(qk - 1).push(rest[qk - 1]));
    assert forall|p: Pt| #[trigger] qcov(rest.take(qk as int), p) == (qcov(rest.take(qk - 1), p) || cov(rest[qk - 1].items@, p)) by { qcov_push(rest.take(qk - 1), rest[qk - 1], p); }
  }
//@ postloop 1
  proof { assert(rest.take(rest.len() as int) =~= rest); }
//@ end
}
} // verus!
fn main() {}
