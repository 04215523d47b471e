//! C18-C22, C29, C30: query items, queries, their encodings and proof items.
use grovedb_query::proofs::{Decoder, encode_into};
use grovedb_query::proofs::{Node, Op, TreeFeatureType};
use grovedb_query::{AggregateSumQuery, ProofItems, Query, QueryItem, SubqueryBranch};
use grovedb_costs::{CostContext, CostsExt as _};
use indexmap::IndexMap;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use verif_harness::*;

type K = Vec<u8>;
type End = Option<(K, i8)>; // None: unbounded. (k,-1) just below k, (k,0) at k, (k,1) just above k

// ---- the oracle: an item is an interval of keys
fn ends(i: &QueryItem) -> (End, End) {
    use QueryItem::*;
    let s = |k: &K, d: i8| Some((k.clone(), d));
    match i {
        Key(k) => (s(k, 0), s(k, 0)),
        Range(r) => (s(&r.start, 0), s(&r.end, -1)),
        RangeInclusive(r) => (s(r.start(), 0), s(r.end(), 0)),
        RangeFull(_) => (None, None),
        RangeFrom(r) => (s(&r.start, 0), None),
        RangeTo(r) => (None, s(&r.end, -1)),
        RangeToInclusive(r) => (None, s(&r.end, 0)),
        RangeAfter(r) => (s(&r.start, 1), None),
        RangeAfterTo(r) => (s(&r.start, 1), s(&r.end, -1)),
        RangeAfterToInclusive(r) => (s(r.start(), 1), s(r.end(), 0)),
    }
}
fn inside(i: &QueryItem, k: &[u8]) -> bool {
    let (lo, hi) = ends(i);
    let p = (k.to_vec(), 0i8);
    lo.is_none_or(|b| b <= p) && hi.is_none_or(|b| p <= b)
}
fn well_formed(i: &QueryItem) -> bool {
    match ends(i) { (Some(a), Some(b)) => a <= b, _ => true }
}
fn lo_cmp(a: &End, b: &End) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, _) => Ordering::Less, (_, None) => Ordering::Greater, (Some(x), Some(y)) => x.cmp(y) }
}
fn hi_cmp(a: &End, b: &End) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, _) => Ordering::Greater, (_, None) => Ordering::Less, (Some(x), Some(y)) => x.cmp(y) }
}
fn meets(a: &QueryItem, b: &QueryItem) -> bool {
    let ((al, ah), (bl, bh)) = (ends(a), ends(b));
    let lo = if lo_cmp(&al, &bl) == Ordering::Less { bl } else { al };
    let hi = if hi_cmp(&ah, &bh) == Ordering::Less { ah } else { bh };
    match (lo, hi) { (Some(x), Some(y)) => x <= y, _ => true }
}
fn universe() -> Vec<K> {
    let al = [0u8, 1, 0x61, 0x62, 0xfe, 0xff];
    let mut v: Vec<K> = vec![vec![]];
    for a in al { v.push(vec![a]); for b in [0u8, 1, 0x61, 0xff] { v.push(vec![a, b]); } }
    for a in al { v.push(vec![a, 0, 0]); v.push(vec![a, 0xff, 0xff]); v.push(vec![a, 0x61, 7]); }
    v.sort();
    v.dedup();
    v
}
fn key(r: &mut Rng, u: &[K]) -> K { if r.chance(1, 12) { let n = r.us(40); r.bytes(n) } else { r.pick(u).clone() } }
fn item_kind(kind: usize, a: K, b: K) -> QueryItem {
    match kind {
        0 => QueryItem::Key(a),
        1 => QueryItem::Range(a..b),
        2 => QueryItem::RangeInclusive(a..=b),
        3 => QueryItem::RangeFull(..),
        4 => QueryItem::RangeFrom(a..),
        5 => QueryItem::RangeTo(..a),
        6 => QueryItem::RangeToInclusive(..=a),
        7 => QueryItem::RangeAfter(a..),
        8 => QueryItem::RangeAfterTo(a..b),
        _ => QueryItem::RangeAfterToInclusive(a..=b),
    }
}
fn raw_item(r: &mut Rng, u: &[K]) -> QueryItem { let (k, a, b) = (r.us(10), key(r, u), key(r, u)); item_kind(k, a, b) }
fn item(r: &mut Rng, u: &[K]) -> QueryItem {
    loop { let i = raw_item(r, u); if well_formed(&i) { return i; } }
}
fn probes(u: &[K], items: &[&QueryItem]) -> Vec<K> {
    let mut v = u.to_vec();
    for i in items {
        let (a, b) = ends(i);
        for e in [a, b].into_iter().flatten() {
            let mut k = e.0.clone(); v.push(k.clone()); k.push(0); v.push(k);
            let mut k = e.0.clone(); if k.pop().is_some() { v.push(k); }
        }
    }
    v
}

fn check_item(i: &QueryItem, u: &[K]) -> R {
    for k in probes(u, &[i]) {
        chk!(i.contains(&k) == inside(i, &k), "{i:?}: contains({}) is {}, the documented interval says {}", hx(&k), i.contains(&k), inside(i, &k));
        let c = i.to_range_set_borrowed().map(|r| r.could_contain_key(&k));
        if let Some(c) = c {
            chk!(c.included == inside(i, &k), "{i:?}: could_contain_key({}).included is {}", hx(&k), c.included);
            let on = [ends(i).0.filter(|e| e.1 == 1), ends(i).1.filter(|e| e.1 == -1)].into_iter().flatten().any(|e| e.0 == k);
            chk!(c.on_bounds_not_included == on, "{i:?}: key {} on an excluded bound: reported {}", hx(&k), c.on_bounds_not_included);
        }
        let one = matches!(ends(i), (Some(a), Some(b)) if a == b && a.0 == k && a.1 == 0);
        let ks: &[u8] = &k;
        chk!((*i == ks) == one, "{i:?} == key {}: reported {}", hx(&k), *i == ks);
    }
    let (lo, hi) = ends(i);
    let (b, x) = i.lower_bound();
    chk!(b.map(|b| b.to_vec()) == lo.as_ref().map(|e| e.0.clone()) && x == lo.as_ref().is_some_and(|e| e.1 == 1), "{i:?}: lower bound {b:?} exclusive {x}");
    let (b, x) = i.upper_bound();
    let incl = !matches!(hi, Some((_, -1)));
    chk!(b.map(|b| b.to_vec()) == hi.as_ref().map(|e| e.0.clone()) && x == incl, "{i:?}: upper bound {b:?} inclusive {x}");
    chk!(i.lower_unbounded() == lo.is_none() && i.upper_unbounded() == hi.is_none(), "{i:?}: unboundedness");
    chk!(i.is_key() == matches!(i, QueryItem::Key(_)) && i.is_range() != i.is_key(), "{i:?}: is_key/is_range");
    if let Ok(ks) = i.keys() {
        let set: BTreeSet<K> = ks.iter().cloned().collect();
        chk!(set.len() == ks.len() && ks.iter().all(|k| inside(i, k)), "{i:?}: keys {ks:?}");
        for b in 0..=255u8 { chk!(set.contains(&vec![b]) == inside(i, &[b]), "{i:?}: one-byte key {b} listed {}", set.contains(&vec![b])); }
    }
    chk!(i.keys().ok() == i.clone().keys_consume().ok(), "{i:?}: keys and keys_consume differ");
    Ok(())
}
fn pt(o: &Option<QueryItem>, k: &[u8]) -> bool { o.as_ref().is_some_and(|i| inside(i, k)) }
fn check_pair(a: &QueryItem, b: &QueryItem, u: &[K]) -> R {
    let ps = probes(u, &[a, b]);
    let x = a.intersect(b);
    chk!(a.collides_with(b) == meets(a, b), "{a:?} collides with {b:?}: reported {}", a.collides_with(b));
    for k in &ps {
        let (ia, ib) = (inside(a, k), inside(b, k));
        chk!(pt(&x.in_both, k) == (ia && ib), "{a:?} n {b:?}: key {} in_both {} but in a {ia}, in b {ib} ({:?})", hx(k), pt(&x.in_both, k), x.in_both);
        if x.in_both.is_some() {
            let (l, r) = (pt(&x.ours_left, k), pt(&x.ours_right, k));
            chk!((l || r) == (ia && !ib) && !(l && r), "{a:?} minus {b:?}: key {}: left {l} right {r}", hx(k));
            let (l, r) = (pt(&x.theirs_left, k), pt(&x.theirs_right, k));
            chk!((l || r) == (ib && !ia) && !(l && r), "{b:?} minus {a:?}: key {}: left {l} right {r}", hx(k));
        } else {
            for (which, i, l, r) in [("ours", ia, &x.ours_left, &x.ours_right), ("theirs", ib, &x.theirs_left, &x.theirs_right)] {
                chk!((pt(l, k) || pt(r, k)) == i && !(pt(l, k) && pt(r, k)), "{a:?} and {b:?} do not meet, key {}: {which} {l:?} {r:?}", hx(k));
            }
        }
    }
    if let Some(m) = &x.in_both {
        for l in [&x.ours_left, &x.theirs_left].into_iter().flatten() { chk!(hi_cmp(&ends(l).1, &ends(m).0.clone()) == Ordering::Less || ends(m).0.is_none(), "{l:?} is not left of {m:?}"); }
        for r in [&x.ours_right, &x.theirs_right].into_iter().flatten() { chk!(ends(m).1.is_some() && ends(r).0.is_some() && ends(m).1 < ends(r).0, "{r:?} is not right of {m:?}"); }
    }
    let (ea, eb) = (ends(a), ends(b));
    let want = lo_cmp(&ea.0, &eb.0).then(hi_cmp(&ea.1, &eb.1));
    chk!(a.cmp(b) == want && b.cmp(a) == want.reverse() && a.partial_cmp(b) == Some(want), "{a:?} cmp {b:?} = {:?}, by intervals {want:?}", a.cmp(b));
    if a == b { chk!(ea == eb, "{a:?} == {b:?}"); }
    chk!((a == b) == (format!("{a:?}") == format!("{b:?}")), "{a:?} == {b:?} is {}", a == b);
    // hull
    let m = a.merge(b);
    let mut c = a.clone();
    c.merge_assign(b);
    chk!(m == c, "merge and merge_assign differ on {a:?}, {b:?}");
    let hull = (if lo_cmp(&ea.0, &eb.0) == Ordering::Less { ea.0.clone() } else { eb.0.clone() }, if hi_cmp(&ea.1, &eb.1) == Ordering::Greater { ea.1.clone() } else { eb.1.clone() });
    chk!(ends(&m) == hull, "{a:?} merged with {b:?} gives {m:?}");
    if meets(a, b) { for k in &ps { chk!(inside(&m, k) == (inside(a, k) || inside(b, k)), "{a:?} merged with {b:?} gives {m:?}: key {}", hx(k)); } }
    Ok(())
}
/// A store of records in key order with a record of some other store before and after them.
struct Cursor<'a> { keys: &'a [K], at: usize }
impl grovedb_storage::RawIterator for Cursor<'_> {
    fn seek_to_first(&mut self) -> CostContext<()> { self.at = 1; ().wrap_with_cost(Default::default()) }
    fn seek_to_last(&mut self) -> CostContext<()> { self.at = self.keys.len(); ().wrap_with_cost(Default::default()) }
    fn seek<B: AsRef<[u8]>>(&mut self, key: B) -> CostContext<()> {
        self.at = 1 + self.keys.iter().filter(|k| k.as_slice() < key.as_ref()).count();
        ().wrap_with_cost(Default::default())
    }
    fn seek_for_prev<B: AsRef<[u8]>>(&mut self, key: B) -> CostContext<()> {
        self.at = self.keys.iter().filter(|k| k.as_slice() <= key.as_ref()).count();
        ().wrap_with_cost(Default::default())
    }
    fn next(&mut self) -> CostContext<()> { self.at = (self.at + 1).min(self.keys.len() + 1); ().wrap_with_cost(Default::default()) }
    fn prev(&mut self) -> CostContext<()> { self.at = self.at.saturating_sub(1); ().wrap_with_cost(Default::default()) }
    fn value(&self) -> CostContext<Option<&[u8]>> { self.key() }
    fn key(&self) -> CostContext<Option<&[u8]>> {
        (if self.at == 0 { None } else { self.keys.get(self.at - 1).map(|k| k.as_slice()) }).wrap_with_cost(Default::default())
    }
    fn valid(&self) -> CostContext<bool> { (self.at > 0 && self.at <= self.keys.len()).wrap_with_cost(Default::default()) }
}
/// Walking a store with an item visits exactly the item's keys, in the asked direction.
fn check_iter(i: &QueryItem, keys: &[K], r: &mut Rng) -> R {
    use grovedb_storage::RawIterator as _;
    if !well_formed(i) { return Ok(()); }
    for ltr in [true, false] {
        let mut want: Vec<&K> = keys.iter().filter(|k| inside(i, k)).collect();
        if !ltr { want.reverse(); }
        let mut c = Cursor { keys, at: r.us(keys.len() + 2) };
        i.seek_for_iter(&mut c, ltr).unwrap();
        let mut got = vec![];
        while i.iter_is_valid_for_type(&c, r.pick(&[None, Some(1), Some(9)]).clone(), r.pick(&[None, Some(1), Some(i64::MAX)]).clone(), ltr).unwrap() {
            got.push(&keys[c.at - 1]);
            chk!(got.len() <= keys.len(), "{i:?} over {keys:?} (left to right: {ltr}) visits more than there is");
            chk!(!i.iter_is_valid_for_type(&c, Some(0), None, ltr).unwrap() && !i.iter_is_valid_for_type(&c, None, Some(-(r.below(3) as i64)), ltr).unwrap(), "{i:?} goes on after its limit");
            if ltr { c.next().unwrap() } else { c.prev().unwrap() }
        }
        chk!(got == want, "{i:?} over {keys:?} (left to right: {ltr}) visits {got:?}");
    }
    Ok(())
}
fn c18(ctx: &mut Ctx) -> R {
    let u = universe();
    ctx.rule("every kind of query item against an independent interval oracle, on probe keys at, just above and just below every bound; pairs of well-formed items for the set algebra; walks of a store with each item in both directions");
    let mut small: Vec<QueryItem> = vec![];
    let ks: Vec<K> = vec![vec![], vec![0], vec![0, 0], vec![0x61], vec![0xff]];
    for k in 0..10 { for a in &ks { for b in &ks { small.push(item_kind(k, a.clone(), b.clone())); } } }
    small.sort_by_key(|i| format!("{i:?}"));
    small.dedup();
    for i in &small {
        at(format!("item {i:?}"));
        ctx.case(format!("{i:?}"), true);
        check_item(i, &u)?;
    }
    let small: Vec<QueryItem> = small.into_iter().filter(well_formed).collect();
    for a in &small {
        for b in &small {
            at(format!("pair {a:?} {b:?}"));
            ctx.case(("p", format!("{a:?}{b:?}")), true);
            check_pair(a, b, &u)?;
        }
    }
    let mut r = ctx.rng.clone();
    for _ in 0..ctx.n(6000) {
        let (a, b) = (item(&mut r, &u), item(&mut r, &u));
        at(format!("pair {a:?} {b:?}"));
        ctx.case(("r", format!("{a:?}{b:?}")), true);
        check_item(&a, &u)?;
        check_pair(&a, &b, &u)?;
        let d = raw_item(&mut r, &u);
        check_item(&d, &u)?;
        let mut keys = probes(&u, &[&a, &b]);
        let full = r.coin();
        keys.retain(|_| full || r.coin());
        keys.sort();
        keys.dedup();
        for i in [&a, &b] { check_iter(i, &keys, &mut r)?; }
        // many
        let (q, w) = (sorted_items(&mut r, &u), sorted_items(&mut r, &u));
        let mut ours = q.clone();
        let res = QueryItem::intersect_many_ordered(&mut ours, w.clone());
        let ps = probes(&u, &q.iter().chain(&w).collect::<Vec<_>>());
        for k in &ps {
            let (iq, iw) = (q.iter().any(|i| inside(i, k)), w.iter().any(|i| inside(i, k)));
            let c = |o: &Option<Vec<QueryItem>>| o.iter().flatten().filter(|i| inside(i, k)).count();
            chk!(c(&res.in_both) == (iq && iw) as usize, "{q:?} x {w:?}: key {} is in {} common parts", hx(k), c(&res.in_both));
            chk!(c(&res.ours) == (iq && !iw) as usize, "{q:?} x {w:?}: key {} is in {} of our parts", hx(k), c(&res.ours));
        }
        if ctx.out_of_time() { break; }
    }
    Ok(())
}
fn sorted_items(r: &mut Rng, u: &[K]) -> Vec<QueryItem> {
    // pairwise disjoint, sorted: built from sorted cut points
    let n = r.us(5);
    let mut v: Vec<QueryItem> = vec![];
    for _ in 0..n { let i = item(r, u); if v.iter().all(|j| !meets(&i, j)) { v.push(i); } }
    v.sort_by(|a, b| lo_cmp(&ends(a).0, &ends(b).0));
    v
}

// ---- C19
fn check_set(items: &[QueryItem], from: &[QueryItem], u: &[K], what: &str) -> R {
    let ps = probes(u, &from.iter().chain(items).collect::<Vec<_>>());
    for k in &ps {
        let want = from.iter().any(|i| inside(i, k));
        let n = items.iter().filter(|i| inside(i, k)).count();
        chk!(n == want as usize, "{what} {from:?} gives {items:?}: key {} selected {n} times, should be {}", hx(k), want as u8);
    }
    if from.iter().all(well_formed) {
        for w in items.windows(2) {
            chk!(w[0] < w[1] && !meets(&w[0], &w[1]), "{what} {from:?} gives {items:?}, not sorted and disjoint");
        }
        for i in items { chk!(well_formed(i), "{what} {from:?} gives {items:?}"); }
    }
    Ok(())
}
fn insert_one(q: &mut Query, i: QueryItem, direct: bool) {
    use QueryItem::*;
    if !direct { return q.insert_item(i); }
    match i {
        Key(k) => q.insert_key(k),
        Range(x) => q.insert_range(x),
        RangeInclusive(x) => q.insert_range_inclusive(x),
        RangeFull(_) => q.insert_all(),
        RangeFrom(x) => q.insert_range_from(x),
        RangeTo(x) => q.insert_range_to(x),
        RangeToInclusive(x) => q.insert_range_to_inclusive(x),
        RangeAfter(x) => q.insert_range_after(x),
        RangeAfterTo(x) => q.insert_range_after_to(x),
        RangeAfterToInclusive(x) => q.insert_range_after_to_inclusive(x),
    }
}
fn insert_agg(q: &mut AggregateSumQuery, i: QueryItem) {
    use QueryItem::*;
    match i {
        Key(k) => q.insert_key(k),
        Range(x) => q.insert_range(x),
        RangeInclusive(x) => q.insert_range_inclusive(x),
        RangeFull(_) => q.insert_all(),
        RangeFrom(x) => q.insert_range_from(x),
        RangeTo(x) => q.insert_range_to(x),
        RangeToInclusive(x) => q.insert_range_to_inclusive(x),
        RangeAfter(x) => q.insert_range_after(x),
        RangeAfterTo(x) => q.insert_range_after_to(x),
        RangeAfterToInclusive(x) => q.insert_range_after_to_inclusive(x),
    }
}
fn c19(ctx: &mut Ctx) -> R {
    let u = universe();
    ctx.rule("sequences of up to 10 items of every kind inserted in random order into plain and aggregate queries, and merges of up to 4 queries in every order, against the union of the item intervals");
    let mut r = ctx.rng.clone();
    for round in 0..ctx.n(4000) {
        let degenerate = r.chance(1, 6);
        let n = 1 + r.us(if round % 5 == 0 { 10 } else { 5 });
        let its: Vec<QueryItem> = (0..n).map(|_| if degenerate { raw_item(&mut r, &u) } else { item(&mut r, &u) }).collect();
        at(format!("insert {its:?}"));
        ctx.case(format!("{its:?}"), n > 1);
        let mut q = Query::new();
        let direct = r.coin();
        for i in &its { insert_one(&mut q, i.clone(), direct); }
        if !degenerate { check_set(&q.items, &its, &u, "inserting")?; }
        let fwd: Vec<_> = q.directional_iter(true).cloned().collect();
        let mut bwd: Vec<_> = q.directional_iter(false).cloned().collect();
        bwd.reverse();
        chk!(fwd == q.items && bwd == q.items && q.len() == q.items.len(), "directional_iter of {:?}", q.items);
        let mut sh = its.clone();
        r.shuffle(&mut sh);
        let mut q2 = Query::new();
        q2.insert_items(sh.clone());
        if !degenerate { check_set(&q2.items, &its, &u, "inserting (shuffled)")?; }
        let mut ag = AggregateSumQuery::new_with_query_items(vec![], 5, None);
        for i in &sh { insert_agg(&mut ag, i.clone()); }
        if !degenerate { check_set(&ag.items, &its, &u, "inserting into an aggregate query")?; }
        if degenerate { continue; }
        // merging
        let parts = 1 + r.us(4);
        let mut qs: Vec<Query> = (0..parts).map(|_| Query::new()).collect();
        let mut ags: Vec<AggregateSumQuery> = (0..parts).map(|_| AggregateSumQuery::new_with_query_items(vec![], 1, Some(1))).collect();
        for i in &its { let p = r.us(parts); qs[p].insert_item(i.clone()); ags[p].insert_item(i.clone()); }
        for q in qs.iter_mut() { if r.chance(1, 3) { q.set_subquery(Query::new_single_key(vec![9])); } if r.chance(1, 4) { q.add_conditional_subquery(item(&mut r, &u), Some(vec![vec![1]]), None); } }
        check_set(&Query::merge_multiple(qs.clone()).items, &its, &u, "merge_multiple of parts of")?;
        let mut m = qs[0].clone();
        for q in &qs[1..] { m.merge_with(q.clone()); }
        check_set(&m.items, &its, &u, "merge_with of parts of")?;
        r.shuffle(&mut qs);
        check_set(&Query::merge_multiple(qs).items, &its, &u, "merge_multiple (shuffled) of parts of")?;
        let am = AggregateSumQuery::merge_multiple(ags.clone()).map_err(|e| Fail(format!("aggregate merge: {e}")))?;
        check_set(&am.items, &its, &u, "aggregate merge of parts of")?;
        chk!(am.sum_limit == parts as u64 && am.limit_of_items_to_check == Some(parts as u16), "aggregate merge limits {am:?}");
        let mut a0 = ags[0].clone();
        for a in &ags[1..] { a0.merge_with(a.clone()).map_err(|e| Fail(format!("aggregate merge_with: {e}")))?; }
        check_set(&a0.items, &its, &u, "aggregate merge_with of parts of")?;
        if ctx.out_of_time() { break; }
    }
    Ok(())
}

// ---- C20
fn branch(r: &mut Rng, u: &[K]) -> SubqueryBranch {
    loop {
        let p = if r.coin() { Some((0..1 + r.us(3)).map(|_| vec![b'p' + r.below(2) as u8]).collect::<Vec<K>>()) } else { None };
        let s = if r.chance(2, 3) { Some(Box::new(Query::new_single_query_item(item(r, u)))) } else { None };
        if p.is_some() || s.is_some() { return SubqueryBranch { subquery_path: p, subquery: s }; }
    }
}
fn at_key<'a>(m: &'a Option<IndexMap<QueryItem, SubqueryBranch>>, k: &[u8]) -> Vec<&'a SubqueryBranch> {
    m.iter().flatten().filter(|(i, _)| inside(i, k)).map(|x| x.1).collect()
}
/// What a branch selects below the key it applies to, and what a query selects at its level.
fn sel_b(b: &SubqueryBranch, mut p: Vec<K>, out: &mut std::collections::BTreeSet<Vec<K>>) {
    p.extend(b.subquery_path.iter().flatten().cloned());
    let Some(q) = &b.subquery else { out.insert(p); return };
    for k in [b"a", b"b", b"c"] {
        if !q.items.iter().any(|i| inside(i, k)) { continue; }
        let mut n = p.clone();
        n.push(k.to_vec());
        sel_b(at_key(&q.conditional_subquery_branches, k).first().unwrap_or(&&q.default_subquery_branch), n, out);
    }
}
fn abc(r: &mut Rng) -> K { vec![b'a' + r.below(3) as u8] }
fn squery(r: &mut Rng, d: usize) -> Query {
    let mut q = Query::new_with_direction(r.coin());
    loop {
        for _ in 0..1 + r.us(2) {
            let (x, y) = (abc(r), abc(r));
            q.insert_item(match r.us(6) { 0 => QueryItem::RangeFull(..), 1 if x < y => QueryItem::Range(x..y), 2 if x <= y => QueryItem::RangeInclusive(x..=y), 3 => QueryItem::RangeFrom(x..), _ => QueryItem::Key(x) });
        }
        if [b"a", b"b", b"c"].iter().any(|k| q.items.iter().any(|i| inside(i, &k[..]))) { break; }
    }
    let mut m = IndexMap::new();
    for k in [b"a", b"b", b"c"] {
        if q.items.iter().any(|i| inside(i, &k[..])) && r.chance(2, 5) {
            let b = sbranch(r, d);
            m.insert(QueryItem::Key(k.to_vec()), b);
        }
    }
    if !m.is_empty() { q.conditional_subquery_branches = Some(m); }
    q
}
fn sbranch(r: &mut Rng, d: usize) -> SubqueryBranch {
    loop {
        let p = if r.chance(3, 5) { Some((0..r.us(4)).map(|_| abc(r)).collect::<Vec<K>>()) } else { None };
        let s = if d > 0 && r.chance(3, 5) { Some(Box::new(squery(r, d - 1))) } else { None };
        if p.is_some() || s.is_some() { return SubqueryBranch { subquery_path: p, subquery: s }; }
    }
}
/// Merging two branches selects what either selects, where nothing selected by one lies on the way
/// to something selected by the other.
fn check_merge(ctx: &mut Ctx, r: &mut Rng) -> R {
    type S = std::collections::BTreeSet<Vec<K>>;
    let of = |b: &SubqueryBranch| -> S { let mut o = S::new(); sel_b(b, vec![], &mut o); o };
    for _ in 0..ctx.n(2500) {
        let n = 2 + r.us(2);
        let bs: Vec<SubqueryBranch> = (0..n).map(|_| sbranch(r, 2)).collect();
        let sels: Vec<S> = bs.iter().map(|b| of(b)).collect();
        let mut want = S::new();
        let mut have = bs[0].clone();
        for k in 0..n {
            if want.iter().any(|x| sels[k].iter().any(|y| x.len() != y.len() && (x.starts_with(y) || y.starts_with(x)))) { break; }
            want.extend(sels[k].iter().cloned());
            if k == 0 { continue; }
            at(format!("merging the branch {:?} into {have:?}", bs[k]));
            ctx.case(format!("merge {have:?} {:?}", bs[k]), true);
            have = have.merge(&bs[k]);
            let got = of(&have);
            chk!(got == want, "the merged branch {have:?} selects {:?} too much and {:?} too little", got.difference(&want).take(3).collect::<Vec<_>>(), want.difference(&got).take(3).collect::<Vec<_>>());
        }
        if ctx.out_of_time() { break; }
    }
    Ok(())
}
fn c20(ctx: &mut Ctx) -> R {
    let u = universe();
    let mut r2 = ctx.rng.clone();
    ctx.rule("two or three branches (paths of none to three keys, nested subqueries with conditions) merged, compared with the union of what they select");
    check_merge(ctx, &mut r2)?;
    ctx.rule("sequences of up to 6 conditional branches (every item kind, with path, subquery or both) merged one by one, each step compared key by key with the branches before it");
    let mut r = ctx.rng.clone();
    for _ in 0..ctx.n(4000) {
        let mut q = Query::new();
        if r.coin() { q.default_subquery_branch = branch(&mut r, &u); }
        q.insert_item(item(&mut r, &u));
        let n = 1 + r.us(6);
        let mut seen: Vec<QueryItem> = vec![];
        for _ in 0..n {
            let (i, b) = (item(&mut r, &u), branch(&mut r, &u));
            let before = q.clone();
            at(format!("merge {i:?} => {b:?} into {:?}", before.conditional_subquery_branches));
            ctx.case(format!("{i:?}{b:?}{:?}", before.conditional_subquery_branches), before.conditional_subquery_branches.is_some());
            if r.coin() { q.merge_conditional_boxed_subquery(i.clone(), b.clone()); }
            else { q.conditional_subquery_branches = Some(Query::merge_conditional_subquery_branches_with_new_at_query_item(q.conditional_subquery_branches.take(), i.clone(), b.clone())); }
            seen.push(i.clone());
            chk!(q.items == before.items && q.default_subquery_branch == before.default_subquery_branch && q.left_to_right == before.left_to_right, "merging a conditional branch changed the rest of the query");
            let all: Vec<&QueryItem> = seen.iter().chain(q.conditional_subquery_branches.iter().flatten().map(|x| x.0)).collect();
            for k in probes(&u, &all) {
                let (old, new) = (at_key(&before.conditional_subquery_branches, &k), at_key(&q.conditional_subquery_branches, &k));
                let want = match (old.first(), inside(&i, &k)) {
                    (None, false) => None,
                    (Some(o), false) => Some((*o).clone()),
                    (None, true) => Some(b.clone()),
                    (Some(o), true) => Some(o.merge(&b)),
                };
                chk!(new.len() <= 1, "key {} is covered by {} conditions of {:?}", hx(&k), new.len(), q.conditional_subquery_branches);
                chk!(new.first().map(|x| (*x).clone()) == want, "key {}: branch {:?}, should be {want:?} (before: {old:?}, merged in {i:?} => {b:?})", hx(&k), new);
            }
            let keys: Vec<&QueryItem> = q.conditional_subquery_branches.iter().flatten().map(|x| x.0).collect();
            for (x, a) in keys.iter().enumerate() { for b in &keys[x + 1..] { chk!(!meets(a, b), "conditions {a:?} and {b:?} overlap"); } }
        }
        // a whole query, condition by condition and then its default branch on the rest of its items
        let mut parts = vec![q.clone()];
        for _ in 0..1 + r.us(2) {
            let mut o = Query::new_with_direction(r.coin());
            for _ in 0..r.us(4) { o.insert_item(item(&mut r, &u)); }
            for _ in 0..r.us(3) { let (i, b) = (item(&mut r, &u), branch(&mut r, &u)); o.merge_conditional_boxed_subquery(i, b); }
            if r.chance(2, 3) { o.default_subquery_branch = branch(&mut r, &u); }
            o.add_parent_tree_on_subquery = r.chance(1, 3);
            parts.push(o);
        }
        at(format!("merging the queries {parts:?}"));
        let mut m = parts[0].clone();
        for o in &parts[1..] {
            let before = m.clone();
            m.merge_with(o.clone());
            chk!(m.default_subquery_branch == before.default_subquery_branch && m.left_to_right == before.left_to_right && m.add_parent_tree_on_subquery == (before.add_parent_tree_on_subquery || o.add_parent_tree_on_subquery), "merge_with changed the rest of the query");
            let all: Vec<&QueryItem> = before.items.iter().chain(&o.items).chain([&before, o, &m].into_iter().flat_map(|q| q.conditional_subquery_branches.iter().flatten().map(|x| x.0))).collect();
            for k in probes(&u, &all) {
                let (old, new, by) = (at_key(&before.conditional_subquery_branches, &k), at_key(&m.conditional_subquery_branches, &k), at_key(&o.conditional_subquery_branches, &k));
                let inc = match by.first() { Some(b) => Some((*b).clone()), None if o.items.iter().any(|i| inside(i, &k)) && o.default_subquery_branch != SubqueryBranch::default() => Some(o.default_subquery_branch.clone()), None => None };
                let want = match (old.first(), &inc) { (None, None) => None, (Some(o), None) => Some((*o).clone()), (None, Some(b)) => Some(b.clone()), (Some(o), Some(b)) => Some(o.merge(b)) };
                chk!(new.len() <= 1 && new.first().map(|x| (*x).clone()) == want, "key {}: {:?} after merge_with, should be {want:?}; {before:?} merged with {o:?}", hx(&k), new);
                chk!(m.items.iter().any(|i| inside(i, &k)) == (before.items.iter().any(|i| inside(i, &k)) || o.items.iter().any(|i| inside(i, &k))), "key {} selected wrongly after merge_with", hx(&k));
            }
        }
        let two = parts[..2].to_vec();
        let (m2, mut w2) = (Query::merge_multiple(two.clone()), two[0].clone());
        w2.merge_with(two[1].clone());
        chk!(m2 == w2, "merge_multiple of two queries gives {m2:?}, merge_with gives {w2:?}");
        ctx.case(format!("whole {parts:?}"), true);
        // an empty branch changes nothing
        let before = q.clone();
        q.merge_conditional_boxed_subquery(item(&mut r, &u), SubqueryBranch::default());
        chk!(q == before, "merging an empty branch changed the query");
        if ctx.out_of_time() { break; }
    }
    Ok(())
}

// ---- C21
fn rquery(r: &mut Rng, u: &[K], d: usize) -> Query {
    let mut q = Query::new_with_direction(r.coin());
    for _ in 0..r.us(4) { q.items.push(raw_item(r, u)); }
    if d > 0 && r.coin() { q.default_subquery_branch = rbranch(r, u, d - 1); }
    if d > 0 && r.chance(1, 3) { q.conditional_subquery_branches = Some((0..r.us(3)).map(|_| (raw_item(r, u), rbranch(r, u, d - 1))).collect()); }
    q.add_parent_tree_on_subquery = r.chance(1, 4);
    q
}
fn rbranch(r: &mut Rng, u: &[K], d: usize) -> SubqueryBranch {
    SubqueryBranch {
        subquery_path: if r.coin() { Some((0..r.us(4)).map(|_| key(r, u)).collect()) } else { None },
        subquery: if r.coin() { Some(Box::new(rquery(r, u, d))) } else { None },
    }
}
fn rt<T: bincode::Encode + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()> + PartialEq + std::fmt::Debug>(v: &T) -> Result<Vec<u8>, Fail> {
    let cfg = bincode::config::standard().with_big_endian().with_no_limit();
    let b = bincode::encode_to_vec(v, cfg).map_err(|e| Fail(format!("encoding {v:?}: {e}")))?;
    let (w, n): (T, usize) = bincode::decode_from_slice(&b, cfg).map_err(|e| Fail(format!("decoding the encoding of {v:?}: {e}")))?;
    chk!(&w == v && n == b.len(), "{v:?} decodes to {w:?} using {n} of {} bytes", b.len());
    let (w, n): (T, usize) = bincode::borrow_decode_from_slice(&b, cfg).map_err(|e| Fail(format!("borrow-decoding the encoding of {v:?}: {e}")))?;
    chk!(&w == v && n == b.len(), "{v:?} borrow-decodes to {w:?} using {n} of {} bytes", b.len());
    Ok(b)
}
fn anybytes<T: bincode::Encode + bincode::Decode<()> + for<'a> bincode::BorrowDecode<'a, ()> + PartialEq + std::fmt::Debug>(b: &[u8]) -> R {
    let cfg = bincode::config::standard().with_big_endian().with_limit::<{ 1 << 24 }>();
    let x = bincode::decode_from_slice::<T, _>(b, cfg);
    let y = bincode::borrow_decode_from_slice::<T, _>(b, cfg);
    match (x, y) {
        (Ok((v, n)), Ok((w, m))) => {
            chk!(v == w && n == m && n <= b.len(), "decode and borrow-decode of {} disagree", hx(b));
            rt(&v)?;
        }
        (Err(_), Err(_)) => {}
        (x, y) => fail!("decode of {} is_ok {} but borrow-decode is_ok {}", hx(b), x.is_ok(), y.is_ok()),
    }
    Ok(())
}
fn json(i: &QueryItem) -> R {
    let s = serde_json::to_string(i).map_err(|e| Fail(format!("serializing {i:?}: {e}")))?;
    let w: QueryItem = serde_json::from_str(&s).map_err(|e| Fail(format!("deserializing {s} of {i:?}: {e}")))?;
    chk!(&w == i, "{i:?} serializes to {s}, which is read as {w:?}");
    let v = serde_json::to_value(i).map_err(|e| Fail(format!("{e}")))?;
    let w: QueryItem = serde_json::from_value(v).map_err(|e| Fail(format!("{e}")))?;
    chk!(&w == i, "{i:?} via a value tree is {w:?}");
    Ok(())
}
fn c21(ctx: &mut Ctx) -> R {
    let u = universe();
    ctx.rule("every item kind, branches and queries up to depth 3 (and chains up to the nesting limit) through bincode (owned and borrowed) and serde_json; mutated and random bytes; chains nested beyond the limit");
    let mut r = ctx.rng.clone();
    for k in 0..10 {
        for a in [vec![], vec![0u8], vec![1, 2, 3], vec![0xff; 300]] { for b in [vec![], vec![7u8]] {
            let i = item_kind(k, a.clone(), b);
            at(format!("item {i:?}"));
            ctx.case(format!("{i:?}"), true);
            rt(&i)?;
            json(&i)?;
        } }
    }
    // nesting
    let cfg = bincode::config::standard().with_big_endian().with_no_limit();
    for n in [0usize, 1, 2, 10, 17, 31, 32, 33, 48, 62, 63, 64, 65, 66, 100, 1000, 20000] {
        for style in 0..3 {
            at(format!("nesting {n} style {style}"));
            ctx.case(("nest", n, style), true);
            let wrap = |inner: &[u8]| -> K {
                let mut v = vec![1u8];
                v.extend([0u8]); // no items
                match style {
                    0 => { v.extend([0u8, 1u8]); v.extend(inner); v.extend([0u8]); }
                    1 => { v.extend([1u8, 1, 1, 9, 1u8]); v.extend(inner); v.extend([0u8]); }
                    _ => { v.extend([0u8, 0u8]); v.extend([1u8, 1u8, 0u8, 1, 5]); v.extend([0u8, 1u8]); v.extend(inner); }
                }
                v.extend([1u8, 0]);
                v
            };
            let base = bincode::encode_to_vec(Query::new(), cfg).unwrap();
            // prefix/suffix construction keeps this linear
            let mark = wrap(&[0xEE]);
            let pos = mark.iter().position(|b| *b == 0xEE).unwrap();
            let (pre, post) = (&mark[..pos], &mark[pos + 1..]);
            let mut b = vec![];
            for _ in 0..n { b.extend(pre); }
            b.extend(&base);
            for _ in 0..n { b.extend(post); }
            let x = bincode::decode_from_slice::<Query, _>(&b, cfg);
            let y = bincode::borrow_decode_from_slice::<Query, _>(&b, cfg);
            for (name, x) in [("decode", x), ("borrow_decode", y)] {
                match x {
                    Ok((q, used)) => {
                        chk!(n <= 1000 && used == b.len(), "{name}: a query nested {n} deep is accepted");
                        let back = bincode::encode_to_vec(&q, cfg).map_err(|e| Fail(e.to_string()))?;
                        chk!(back == b, "{name}: nested query re-encodes differently");
                    }
                    Err(_) => chk!(n > 64, "{name}: a query nested {n} deep is refused"),
                }
            }
            anybytes::<SubqueryBranch>(&[&[0u8, 1u8][..], &b[..b.len().min(40000)]].concat())?;
        }
    }
    // the most items and the most conditional branches a query may have
    for (items, conds) in [(65_536usize, 0usize), (0, 1024), (65_535, 1023), (1024, 1024)] {
        let mut q = Query::new();
        q.items = (0..items as u32).map(|i| QueryItem::Key(i.to_be_bytes().to_vec())).collect();
        if conds > 0 { q.conditional_subquery_branches = Some((0..conds as u32).map(|i| (QueryItem::Key(i.to_be_bytes().to_vec()), branch(&mut r, &u))).collect()); }
        at(format!("query with {items} items and {conds} conditional branches"));
        ctx.case(("max", items, conds), true);
        rt(&q)?;
    }
    for (items, conds) in [(65_537u32, 0u32), (0, 1025)] {
        let mut q = Query::new();
        q.items = (0..items).map(|i| QueryItem::Key(i.to_be_bytes().to_vec())).collect();
        if conds > 0 { q.conditional_subquery_branches = Some((0..conds).map(|i| (QueryItem::Key(i.to_be_bytes().to_vec()), branch(&mut r, &u))).collect()); }
        at(format!("bytes of a query with {items} items and {conds} conditional branches"));
        let b = bincode::encode_to_vec(&q, cfg).map_err(|e| Fail(e.to_string()))?;
        chk!(bincode::decode_from_slice::<Query, _>(&b, cfg).is_err() && bincode::borrow_decode_from_slice::<Query, _>(&b, cfg).is_err(), "a query over the limits decodes");
    }
    for _ in 0..ctx.n(3000) {
        let q = rquery(&mut r, &u, 3);
        at(format!("query {q:?}"));
        ctx.case(format!("{q:?}"), !q.items.is_empty());
        let mut b = rt(&q)?;
        rt(&q.default_subquery_branch)?;
        for i in &q.items { rt(i)?; json(i)?; }
        for _ in 0..3 {
            match r.below(4) {
                0 => { let n = r.us(b.len() + 1); b.truncate(n); }
                1 if !b.is_empty() => { let n = r.us(b.len()); b[n] = r.below(256) as u8; }
                2 => { let n = r.us(b.len() + 1); let x = *r.pick(&[0u8, 1, 251, 252, 253, 255]); b.insert(n, x); }
                _ if !b.is_empty() => { let n = r.us(b.len()); b[n] ^= 1 << r.below(8); }
                _ => {}
            }
            at(format!("bytes {}", hx(&b)));
            ctx.case(b.clone(), true);
            anybytes::<Query>(&b)?;
            anybytes::<QueryItem>(&b)?;
            anybytes::<SubqueryBranch>(&b)?;
        }
        let n = r.us(30);
        let s: String = (0..n).map(|_| *r.pick(&['{', '}', '[', ']', '"', 'K', 'e', 'y', ':', ',', '1', 'n'])).collect();
        let _ = serde_json::from_str::<QueryItem>(&s);
        if ctx.out_of_time() { break; }
    }
    Ok(())
}

// ---- C22
fn feature(r: &mut Rng) -> TreeFeatureType {
    use TreeFeatureType::*;
    let (c, s) = (r.edge(), r.edge() as i64);
    match r.below(7) {
        0 => BasicMerkNode,
        1 => SummedMerkNode(s),
        2 => BigSummedMerkNode(((s as i128) << 64) | c as i128),
        3 => CountedMerkNode(c),
        4 => CountedSummedMerkNode(c, s),
        5 => ProvableCountedMerkNode(c),
        _ => ProvableCountedSummedMerkNode(c, s),
    }
}
fn node(r: &mut Rng, kind: usize, key: K, val: K) -> Node {
    let mut h = || -> [u8; 32] { r.bytes(32).try_into().unwrap() };
    let (h1, h2) = (h(), h());
    let c = r.edge();
    match kind {
        0 => Node::Hash(h1),
        1 => Node::KVHash(h1),
        2 => Node::KVDigest(key, h1),
        3 => Node::KV(key, val),
        4 => Node::KVValueHash(key, val, h1),
        5 => Node::KVValueHashFeatureType(key, val, h1, feature(r)),
        6 => Node::KVRefValueHash(key, val, h1),
        7 => Node::KVCount(key, val, c),
        8 => Node::KVHashCount(h1, c),
        9 => Node::KVRefValueHashCount(key, val, h1, c),
        10 => Node::KVDigestCount(key, h1, c),
        _ => Node::KVValueHashFeatureTypeWithChildHash(key, val, h1, feature(r), h2),
    }
}
fn op(r: &mut Rng, big: bool) -> Op {
    let kl = match r.below(5) { 0 => 0, 1 => 255, 2 => 1, _ => r.us(256) };
    let vl = if big { *r.pick(&[65534usize, 65535, 65536, 65537, 70000, 200000]) } else { match r.below(4) { 0 => 0, 1 => 255 + r.us(3), _ => r.us(100) } };
    let (key, val) = (r.bytes(kl), r.bytes(vl));
    let k = r.us(16);
    let inv = r.coin();
    match k {
        12 => Op::Parent,
        13 => Op::Child,
        14 => Op::ParentInverted,
        15 => Op::ChildInverted,
        k => { let n = node(r, k, key, val); if inv { Op::PushInverted(n) } else { Op::Push(n) } }
    }
}
fn one(o: &Op) -> Result<K, Fail> {
    let mut b = vec![];
    encode_into([o].into_iter(), &mut b);
    chk!(b.len() == o.encoding_length(), "an operation encodes to {} bytes, predicted {}: {}", b.len(), o.encoding_length(), brief(o));
    let d = Op::decode(&b).map_err(|e| Fail(format!("decoding {}: {e}", brief(o))))?;
    chk!(&d == o, "{} decodes to {}", brief(o), brief(&d));
    Ok(b)
}
fn brief(o: &Op) -> String { let s = format!("{o:?}"); if s.len() > 300 { format!("{}... ({} chars)", s.chars().take(300).collect::<String>(), s.len()) } else { s } }
fn c22(ctx: &mut Ctx) -> R {
    ctx.rule("every node kind, plain and inverted, with every key length 0..=255 and value lengths round every width boundary (0, 255, 65535, 65536 and above), every tree feature with boundary sums and counts; sequences up to 12 operations; mutated and random bytes; declared lengths beyond the limit");
    let mut r = ctx.rng.clone();
    for kind in 0..12 {
        for inv in [false, true] {
            for kl in 0..=255usize {
                let (k, v) = (r.bytes(kl), r.bytes(kl % 7));
                let n = node(&mut r, kind, k, v);
                let o = if inv { Op::PushInverted(n) } else { Op::Push(n) };
                at(brief(&o));
                ctx.case(("k", kind, inv, kl), true);
                one(&o)?;
            }
            for vl in [0usize, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 131072] {
                for _ in 0..3 {
                    let (k, v) = (r.bytes(3), r.bytes(vl));
                    let n = node(&mut r, kind, k, v);
                    let o = if inv { Op::PushInverted(n) } else { Op::Push(n) };
                    at(brief(&o));
                    ctx.case(("v", kind, inv, vl, brief(&o)), true);
                    let b = one(&o)?;
                    // a following operation is found
                    let mut b2 = b.clone();
                    encode_into([Op::Child].iter(), &mut b2);
                    let got: Vec<Op> = Decoder::new(&b2).collect::<Result<_, _>>().map_err(|e| Fail(format!("{e}")))?;
                    chk!(got == vec![o.clone(), Op::Child], "{} followed by Child decodes differently", brief(&o));
                    for cut in [b.len() - 1, b.len() / 2, 1, 0] { if cut < b.len() { chk!(Op::decode(&b[..cut]).is_err(), "a truncated {} decodes", brief(&o)); } }
                }
            }
        }
    }
    // lengths beyond the limit are refused before anything that size is read
    for tag in 0x20u8..=0x2f {
        for len in [64 * 1024 * 1024 + 1u32, u32::MAX, u32::MAX - 1] {
            let mut b = vec![tag, 1, b'k'];
            b.extend(len.to_be_bytes());
            b.extend([0u8; 64]);
            at(format!("tag {tag:#x} declared length {len}"));
            ctx.case((tag, len), true);
            chk!(Op::decode(&b).is_err(), "tag {tag:#x}: a value of {len} bytes is accepted");
        }
    }
    // the limit itself, with all the bytes present
    for kind in 0..12 {
        for inv in [false, true] {
            for over in [false, true] {
                let lim = 64 * 1024 * 1024 + over as usize;
                let n = node(&mut r, kind, b"k".to_vec(), vec![0; lim]);
                let o = if inv { Op::PushInverted(n) } else { Op::Push(n) };
                at(format!("node kind {kind} inverted {inv} with a value of {lim} bytes"));
                let mut b = vec![];
                encode_into([&o].into_iter(), &mut b);
                if b.len() < lim { break; } // a kind with no value
                ctx.case(("limit", kind, inv, over), true);
                chk!(b.len() == o.encoding_length(), "predicted length {} instead of {}", o.encoding_length(), b.len());
                match Op::decode(b.as_slice()) { Ok(x) => chk!(!over && x == o, "a value of {lim} bytes decodes{}", if over { ", it is over the limit" } else { " to something else" }), Err(e) => chk!(over, "a value at the limit is refused: {e}") }
            }
        }
    }
    for round in 0..ctx.n(3000) {
        let n = r.us(13);
        let big = round % 50 == 0;
        let ops: Vec<Op> = (0..n).map(|_| op(&mut r, big)).collect();
        let mut b = vec![];
        encode_into(ops.iter(), &mut b);
        at(format!("{} operations, {} bytes", n, b.len()));
        ctx.case(format!("{:?}", ops.iter().map(brief).collect::<Vec<_>>()), n > 0);
        let total: usize = ops.iter().map(|o| o.encoding_length()).sum();
        chk!(b.len() == total, "a sequence encodes to {} bytes, predicted {total}", b.len());
        let mut d = Decoder::new(&b);
        chk!(d.remaining_bytes() == b.len(), "remaining bytes of a fresh decoder");
        let mut left = b.len();
        for o in &ops {
            match d.next() {
                Some(Ok(x)) => { chk!(&x == o, "{} decodes to {}", brief(o), brief(&x)); left -= o.encoding_length(); chk!(d.remaining_bytes() == left, "remaining bytes {} should be {left}", d.remaining_bytes()); }
                Some(Err(e)) => fail!("decoding {}: {e}", brief(o)),
                None => fail!("the sequence ends before {}", brief(o)),
            }
        }
        chk!(d.next().is_none(), "operations after the end");
        if big { continue; }
        for _ in 0..2 {
            if b.is_empty() || r.chance(1, 6) { let m = r.us(80); b = r.bytes(m); if !b.is_empty() { b[0] = r.below(0x32) as u8; } }
            else { let m = r.us(b.len()); match r.below(3) { 0 => b[m] = r.below(0x40) as u8, 1 => b[m] ^= 1 << r.below(8), _ => b.truncate(m) } }
            at(format!("bytes {}", hx(&b)));
            ctx.case(b.clone(), true);
            let mut count = 0;
            for x in Decoder::new(&b) {
                count += 1;
                match x { Ok(o) => { one(&o)?; } Err(_) => break }
                chk!(count <= b.len(), "more operations than bytes");
            }
        }
        if ctx.out_of_time() { break; }
    }
    Ok(())
}

// ---- C29
type PK = (Vec<K>, K);
fn enum_item(i: &QueryItem) -> Option<Vec<K>> {
    match i {
        QueryItem::Key(k) => Some(vec![k.clone()]),
        QueryItem::Range(r) if r.start.len() <= 1 && r.end.len() == 1 => Some(std::iter::once(vec![]).chain((0..=255u8).map(|b| vec![b])).filter(|k| inside(i, k)).collect()),
        QueryItem::RangeInclusive(r) if r.start().len() <= 1 && r.end().len() == 1 => Some(std::iter::once(vec![]).chain((0..=255u8).map(|b| vec![b])).filter(|k| inside(i, k)).collect()),
        _ => None,
    }
}
/// None: not enumerable.
fn leaves(q: &Query, path: &[K], out: &mut BTreeMap<PK, usize>) -> Option<()> {
    // what an item lists, and what a condition lists and an item selects
    let mut keys = std::collections::BTreeSet::new();
    for (i, _) in q.conditional_subquery_branches.iter().flatten() { keys.extend(enum_item(i)?.into_iter().filter(|k| q.items.iter().any(|i| inside(i, k)))); }
    for i in &q.items { keys.extend(enum_item(i)?); }
    {
        for k in keys {
            let b = q.conditional_subquery_branches.iter().flatten().find(|(c, _)| inside(c, &k)).map(|x| x.1).unwrap_or(&q.default_subquery_branch);
            let mut p = path.to_vec();
            match (&b.subquery_path, &b.subquery) {
                (None, None) => *out.entry((p, k)).or_insert(0) += 1,
                (sp, Some(s)) => { p.push(k); p.extend(sp.iter().flatten().cloned()); leaves(s, &p, out)?; }
                (Some(sp), None) => { p.push(k); let (l, f) = sp.split_last()?; p.extend(f.iter().cloned()); *out.entry((p, l.clone())).or_insert(0) += 1; }
            }
        }
    }
    Some(())
}
fn tquery(r: &mut Rng, d: usize) -> Query {
    let mut q = Query::new_with_direction(r.coin());
    let it = |r: &mut Rng| -> QueryItem {
        let (a, b) = (r.below(6) as u8, r.below(8) as u8);
        match r.below(12) { 0 => QueryItem::Range(vec![a.min(b)]..vec![a.max(b)]), 1 => QueryItem::RangeInclusive(vec![a.min(b)]..=vec![a.max(b)]), 2 if r.chance(1, 6) => QueryItem::Range(vec![]..vec![b]),
            3 if r.chance(1, 8) => QueryItem::RangeFrom(vec![a]..), 4 if r.chance(1, 8) => QueryItem::Range(vec![a, 1]..vec![a, 2]), 5 if r.chance(1, 8) => QueryItem::RangeAfterTo(vec![1]..vec![4]), 6 | 7 => QueryItem::Key(vec![a, b]), _ => QueryItem::Key(vec![a]) }
    };
    for _ in 0..1 + r.us(3) { q.insert_item(it(r)); }
    let br = |r: &mut Rng, d: usize| SubqueryBranch {
        subquery_path: if r.chance(1, 3) { Some((0..1 + r.us(3)).map(|_| vec![100 + r.below(3) as u8]).collect()) } else { None },
        subquery: if d > 0 && r.coin() { Some(Box::new(tquery(r, d - 1))) } else { None },
    };
    if r.coin() { q.default_subquery_branch = br(r, d); }
    if r.coin() {
        let mut m = IndexMap::new();
        for _ in 0..1 + r.us(3) { let i = it(r); if r.chance(1, 3) || m.keys().all(|j| !meets(&i, j)) { m.insert(i, br(r, d)); } }
        q.conditional_subquery_branches = Some(m);
    }
    q
}
fn c29(ctx: &mut Ctx) -> R {
    ctx.rule("queries up to depth 3 with keys and one-byte ranges, default and conditional branches (with path, subquery, both or neither), every result limit round the true number; non-enumerable items refused");
    let mut r = ctx.rng.clone();
    for _ in 0..ctx.n(8000) {
        let d = r.us(4);
        let q = tquery(&mut r, d);
        let base: Vec<K> = (0..r.us(3)).map(|i| vec![200 + i as u8]).collect();
        at(format!("query {q:?} at {base:?}"));
        let mut want = BTreeMap::new();
        let ok = leaves(&q, &base, &mut want).is_some();
        ctx.case(format!("{q:?}"), ok && !want.is_empty());
        let n = want.len();
        for lim in [n, n + 1, n.saturating_sub(1), 100000, 0] {
            let mut out = vec![];
            match q.terminal_keys(base.clone(), lim, &mut out) {
                Ok(added) => {
                    chk!(ok, "a query that is not enumerable lists {out:?}");
                    chk!(n <= lim, "{n} terminal keys exceed the limit {lim} but are listed");
                    chk!(added == out.len(), "reports {added} keys, lists {}", out.len());
                    let mut got = BTreeMap::new();
                    for o in out { *got.entry(o).or_insert(0usize) += 1; }
                    chk!(got == want, "terminal keys {got:?}, the query can return {want:?}");
                }
                Err(e) => chk!(!ok || n > lim, "{n} terminal keys within the limit {lim} are refused: {e}"),
            }
        }
        if ctx.out_of_time() { break; }
    }
    // depth is bounded, not the stack
    let mut q = Query::new_single_key(vec![1]);
    for n in 1..300usize {
        let mut p = Query::new_single_key(vec![1]);
        p.set_subquery(q);
        q = p;
        at(format!("chain of {n}"));
        let mut out = vec![];
        match q.terminal_keys(vec![], 10, &mut out) { Ok(k) => chk!(k == 1 && out.len() == 1 && out[0].0.len() == n, "chain of {n}: {out:?}"), Err(_) => chk!(n > 63, "chain of {n} refused") }
    }
    Ok(())
}

// ---- C30
fn walk(pi: &ProofItems, keys: &[K], lo: Option<&K>, hi: Option<&K>, items: &[QueryItem], r: &mut Rng, seen: &mut usize) -> R {
    // every key between the neighbours must be answered alike by the parts passed on
    let any = |pi: &ProofItems, k: &K| pi.process_key(k).0;
    if keys.is_empty() {
        // nothing stored here: the parts passed on still say exactly what the query says
        return Ok(());
    }
    let m = r.us(keys.len());
    let k = &keys[m];
    let (present, boundary, left, right) = pi.process_key(k);
    let want = items.iter().any(|i| inside(i, k));
    *seen += 1;
    chk!(present == want, "key {} reported {} by the items passed down, the query {items:?} says {want}", hx(k), present);
    if !want {
        let on = items.iter().any(|i| [ends(i).0.filter(|e| e.1 == 1), ends(i).1.filter(|e| e.1 == -1)].into_iter().flatten().any(|e| &e.0 == k));
        chk!(boundary == on, "key {} on an excluded bound reported {boundary} for {items:?}", hx(k));
    }
    for (x, y) in keys.iter().map(|y| (y.cmp(k), y)) {
        let sel = items.iter().any(|i| inside(i, y));
        if x == Ordering::Less { chk!(any(&left, y) == sel, "splitting at {}: key {} selected {sel} but the left part says {}", hx(k), hx(y), !sel); }
        if x == Ordering::Greater { chk!(any(&right, y) == sel, "splitting at {}: key {} selected {sel} but the right part says {}", hx(k), hx(y), !sel); }
    }
    let hasl = items.iter().any(|i| lo_cmp(&ends(i).0, &Some((k.clone(), -1))) != Ordering::Greater && well_formed(i) && lo.is_none());
    if hasl { chk!(!left.has_no_query_items(), "splitting at {}: nothing is passed left of {items:?}", hx(k)); }
    if lo.is_none() && !items.iter().any(|i| match ends(i).0 { None => true, Some((b, _)) => b < *k }) { chk!(left.has_no_query_items(), "splitting at {}: items are passed left although {items:?} has none there", hx(k)); }
    if hi.is_none() && !items.iter().any(|i| match ends(i).1 { None => true, Some((b, _)) => b > *k }) { chk!(right.has_no_query_items(), "splitting at {}: items are passed right although {items:?} has none there", hx(k)); }
    walk(&left, &keys[..m], lo, Some(k), items, r, seen)?;
    walk(&right, &keys[m + 1..], Some(k), hi, items, r, seen)
}
fn c30(ctx: &mut Ctx) -> R {
    let u = universe();
    ctx.rule("random search trees over 0..60 keys walked with the split proof items, for queries of up to 6 disjoint items of every kind, in both directions; each visited key and each key of each side compared with the query");
    let mut r = ctx.rng.clone();
    for _ in 0..ctx.n(3000) {
        let mut items = sorted_items(&mut r, &u);
        items.extend(sorted_items(&mut r, &u).into_iter().filter(|i| items.iter().all(|j| !meets(i, j))).collect::<Vec<_>>());
        items.sort();
        let mut keys: Vec<K> = probes(&u, &items.iter().collect::<Vec<_>>());
        r.shuffle(&mut keys);
        keys.truncate(1 + r.us(60));
        keys.sort();
        keys.dedup();
        at(format!("items {items:?} keys {keys:?}"));
        let ltr = r.coin();
        let (pi, params) = ProofItems::new_with_query_items(&items, ltr);
        chk!(params.left_to_right == ltr, "direction lost");
        chk!(pi.has_no_query_items() == items.is_empty(), "emptiness");
        let mut seen = 0;
        let mut rr = r.clone();
        walk(&pi, &keys, None, None, &items, &mut rr, &mut seen)?;
        r.next();
        chk!(seen == keys.len(), "visited {seen}");
        ctx.case(format!("{items:?}{}", keys.len()), !items.is_empty());
        if ctx.out_of_time() { break; }
    }
    Ok(())
}
fn main() {
    main_with(&[("C18", c18), ("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C29", c29), ("C30", c30)])
}
