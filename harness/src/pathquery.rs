//! C26: what a path query prescribes at each path, found by walking one segment at a time.
use grovedb::{PathQuery, QueryItem, SizedQuery, SubqueryBranch};
use grovedb_query::Query;
use grovedb_version::version::GroveVersion;
use std::collections::{BTreeMap, BTreeSet};
use verif_harness::*;

type K = Vec<u8>;
const TREES: [&[u8]; 3] = [b"A", b"B", b"C"];
const KEYS: [&[u8]; 7] = [b"", b"A", b"AB", b"B", b"C", b"x", b"y"];

pub fn inside(i: &QueryItem, k: &[u8]) -> bool {
    use QueryItem::*;
    match i {
        Key(x) => x == k,
        Range(r) => r.start.as_slice() <= k && k < r.end.as_slice(),
        RangeInclusive(r) => r.start().as_slice() <= k && k <= r.end().as_slice(),
        RangeFull(_) => true,
        RangeFrom(r) => r.start.as_slice() <= k,
        RangeTo(r) => k < r.end.as_slice(),
        RangeToInclusive(r) => k <= r.end.as_slice(),
        RangeAfter(r) => r.start.as_slice() < k,
        RangeAfterTo(r) => r.start.as_slice() < k && k < r.end.as_slice(),
        RangeAfterToInclusive(r) => r.start().as_slice() < k && k <= r.end().as_slice(),
    }
}

/// where a path has led
#[derive(Clone)]
pub enum Pos { At(Query), Along(Vec<K>, Option<Query>), Nowhere }
fn along(p: Vec<K>, q: Option<Query>) -> Pos { if !p.is_empty() { Pos::Along(p, q) } else { q.map_or(Pos::Nowhere, Pos::At) } }
fn conditional<'a>(q: &'a Query, k: &[u8]) -> Option<&'a SubqueryBranch> {
    q.conditional_subquery_branches.as_ref().and_then(|m| m.iter().find(|(i, _)| inside(i, k)).map(|(_, b)| b))
}
pub fn step(p: &Pos, k: &[u8]) -> Pos {
    match p {
        Pos::At(q) => { let b = conditional(q, k).unwrap_or(&q.default_subquery_branch); along(b.subquery_path.clone().unwrap_or_default(), b.subquery.as_deref().cloned()) }
        Pos::Along(p, q) if p[0] == k => along(p[1..].to_vec(), q.clone()),
        _ => Pos::Nowhere,
    }
}
pub fn start(q: &PathQuery) -> Pos { along(q.path.clone(), Some(q.query.query.clone())) }
/// whether a key met there is descended into
pub fn descends(p: &Pos, k: &[u8]) -> bool {
    match p {
        Pos::At(q) => { let d = &q.default_subquery_branch; d.subquery.is_some() || d.subquery_path.is_some() || conditional(q, k).is_some() }
        Pos::Along(p, q) => p[0] == k && (p.len() > 1 || q.is_some()),
        Pos::Nowhere => false,
    }
}
pub fn selects(p: &Pos, k: &[u8]) -> bool { match p { Pos::At(q) => q.items.iter().any(|i| inside(i, k)), Pos::Along(p, _) => p[0] == k, Pos::Nowhere => false } }

fn item(r: &mut Rng) -> QueryItem {
    let (a, b) = (r.pick(&KEYS).to_vec(), r.pick(&KEYS).to_vec());
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    match r.below(16) { 0 => QueryItem::Range(a..b), 1 => QueryItem::RangeInclusive(a..=b), 2 => QueryItem::RangeFull(..), 3 => QueryItem::RangeFrom(a..), 4 => QueryItem::RangeTo(..a), 5 => QueryItem::RangeToInclusive(..=a), 6 => QueryItem::RangeAfter(a..), 7 => QueryItem::RangeAfterTo(a..b), 8 => QueryItem::RangeAfterToInclusive(a..=b), _ => QueryItem::Key(if r.coin() { a } else { b }) }
}
fn segs(r: &mut Rng, n: usize) -> Vec<K> { (0..n).map(|_| r.pick(&KEYS[..5]).to_vec()).collect() }
fn branch(r: &mut Rng, d: usize) -> SubqueryBranch {
    SubqueryBranch { subquery_path: if r.coin() { let n = r.us(4); Some(segs(r, n)) } else { None }, subquery: if d > 0 && r.chance(3, 4) { Some(Box::new(query(r, d - 1))) } else { None } }
}
fn query(r: &mut Rng, d: usize) -> Query {
    let mut q = Query::new_with_direction(r.coin());
    for _ in 0..r.us(3) { q.insert_item(item(r)); }
    q.add_parent_tree_on_subquery = r.coin();
    if r.chance(2, 3) { q.default_subquery_branch = branch(r, d); }
    if r.chance(2, 3) {
        let mut m: indexmap::IndexMap<_, _> = Default::default();
        for _ in 0..r.us(4) { m.insert(item(r), branch(r, d)); }
        q.conditional_subquery_branches = Some(m);
    }
    q
}
/// a path which mostly follows the query
fn follow(q: &PathQuery, r: &mut Rng) -> Vec<K> {
    let mut p = start(q);
    let mut path = vec![];
    for _ in 0..r.us(9) {
        let k = match &p { Pos::Along(s, _) if r.chance(9, 10) => s[0].clone(), _ => r.pick(&KEYS).to_vec() };
        p = step(&p, &k);
        path.push(k);
        if matches!(p, Pos::Nowhere) && r.chance(2, 3) { break; }
    }
    path
}
fn check_at(q: &PathQuery, path: &[K]) -> Result<usize, Fail> {
    let v = GroveVersion::latest();
    let s: Vec<&[u8]> = path.iter().map(|k| k.as_slice()).collect();
    at(format!("path {s:?} of {q:?}"));
    let p = path.iter().fold(start(q), |p, k| step(&p, k));
    let got = q.query_items_at_path(&s, v);
    let Ok(got) = got else { fail!("query_items_at_path({s:?}) of {q} is refused") };
    let parent = q.should_add_parent_tree_at_path(&s, v);
    let want = matches!(&p, Pos::At(q) if q.add_parent_tree_on_subquery);
    chk!(parent.as_ref().ok() == Some(&want), "should_add_parent_tree_at_path({s:?}) of {q:?} is {parent:?}, walking there gives {want}");
    match (&p, &got) {
        (Pos::Nowhere, None) => return Ok(0),
        (Pos::Nowhere, Some(g)) => fail!("{q:?} leads nowhere at {s:?}, but prescribes {g}"),
        (_, None) => fail!("{q:?} prescribes nothing at {s:?}, where it leads to a query"),
        (Pos::At(want), Some(g)) => {
            chk!(*g.items == want.items, "{q:?} prescribes items {:?} at {s:?}, the query there has {:?}", g.items, want.items);
            chk!(g.left_to_right == want.left_to_right, "{q:?} prescribes the wrong direction at {s:?}");
            chk!(g.in_path.is_none(), "{q:?} claims to be along a path at {s:?}");
        }
        (Pos::Along(rest, below), Some(g)) => {
            chk!(*g.items == vec![QueryItem::Key(rest[0].clone())], "{q:?} prescribes items {:?} at {s:?}, the next segment is {:?}", g.items, rest[0]);
            chk!(g.left_to_right, "{q:?} goes right to left along a path at {s:?}");
            let on = if rest.len() == 1 && below.is_none() { None } else { Some(&rest[0]) };
            chk!(g.in_path.as_deref() == on, "{q:?} at {s:?} goes on to {:?}, not {on:?}", g.in_path);
        }
    }
    let g = got.as_ref().unwrap();
    for k in KEYS {
        let (want, along) = match &p { Pos::At(_) => (descends(&p, k), false), _ => (false, descends(&p, k)) };
        chk!(g.has_subquery.has_subquery_on_key(k) == want, "{q:?} at {s:?} says {} to a subquery on key {k:?}", !want);
        chk!(g.has_subquery_or_matching_in_path_on_key(k) == (want || along), "{q:?} at {s:?} says {} to going on at key {k:?}", !(want || along));
    }
    Ok(match p { Pos::At(_) => 2, _ => 1 })
}

// ---- merging: the selected set over a tree of keys A, B, C (subtrees) and x, y (items), four deep
fn selected(p: &Pos, path: &mut Vec<K>, out: &mut BTreeSet<Vec<K>>) {
    for k in KEYS {
        if !selects(p, k) { continue; }
        path.push(k.to_vec());
        if TREES.contains(&k) && descends(p, k) { if path.len() <= 5 { selected(&step(p, k), path, out); } }
        else if !matches!(p, Pos::Along(s, q) if s.len() > 1 || q.is_some()) { out.insert(path.clone()); }
        path.pop();
    }
}
fn all_selected(q: &PathQuery) -> BTreeSet<Vec<K>> { let mut o = BTreeSet::new(); selected(&start(q), &mut vec![], &mut o); o }
/// whether a key met there is descended into because no condition says otherwise
fn by_default(p: &Pos, k: &[u8]) -> bool { matches!(p, Pos::At(q) if conditional(q, k).is_none()) && descends(p, k) }
/// Queries which meet on a subtree and do not say the same of a key there: both select it and one descends
/// into it by its default branch or not at all, or one names it in a condition, or would descend into it if it
/// selected it, where only the other selects it.
fn at_odds(ps: &[Pos], d: usize) -> bool {
    let on: Vec<&Pos> = ps.iter().filter(|p| !matches!(p, Pos::Nowhere)).collect();
    if on.len() < 2 { return false; }
    for (i, a) in on.iter().enumerate() {
        for b in &on[i + 1..] {
            for k in TREES {
                let t = |p: &Pos| (selects(p, k), descends(p, k), by_default(p, k));
                let ((sa, da, fa), (sb, db, fb)) = (t(a), t(b));
                if sa && sb && (da != db || fa || fb) { return true; }
                if (da && !sa && sb && (!db || !fa)) || (db && !sb && sa && (!da || !fb)) { return true; }
            }
        }
    }
    d < 6 && TREES.iter().any(|k| at_odds(&on.iter().filter(|p| selects(p, k)).map(|p| step(p, k)).collect::<Vec<_>>(), d + 1))
}
/// queries which descend by condition only (in one style: by default too), into subtrees they select
fn mquery(r: &mut Rng, d: usize, style: u64) -> Query {
    let mut q = Query::new_with_direction(r.coin());
    for _ in 0..1 + r.us(3) { q.insert_item(match r.below(5) { 0 => QueryItem::RangeInclusive(b"x".to_vec()..=b"y".to_vec()), 1 => QueryItem::RangeFrom(b"x".to_vec()..), _ => QueryItem::Key(r.pick(&[b"x".to_vec(), b"y".to_vec(), b"".to_vec()]).clone()) }); }
    if d == 0 { return q; }
    if style == 1 && r.chance(1, 3) {
        q.default_subquery_branch = mbranch(r, d, style);
        for t in TREES { if r.chance(1, 3) { q.insert_item(QueryItem::Key(t.to_vec())); } }
    }
    let mut m: BTreeMap<K, QueryItem> = BTreeMap::new();
    for t in TREES { if r.chance(2, 5) { m.insert(t.to_vec(), QueryItem::Key(t.to_vec())); } }
    if r.chance(1, 3) { m.clear(); let (a, b) = (r.us(3), r.us(3)); m.insert(vec![], QueryItem::RangeInclusive(TREES[a.min(b)].to_vec()..=TREES[a.max(b)].to_vec())); }
    for i in m.into_values() {
        q.insert_item(i.clone());
        let b = mbranch(r, d, style);
        q.conditional_subquery_branches.get_or_insert_with(Default::default).insert(i, b);
    }
    q
}
fn mbranch(r: &mut Rng, d: usize, style: u64) -> SubqueryBranch {
    SubqueryBranch { subquery_path: if r.chance(2, 5) { Some((0..1 + r.us(2)).map(|_| r.pick(&TREES).to_vec()).collect()) } else { None }, subquery: Some(Box::new(mquery(r, d - 1, style))) }
}
fn check_merge(qs: &[PathQuery], ctx: &mut Ctx) -> R {
    let v = GroveVersion::latest();
    let refs: Vec<&PathQuery> = qs.iter().collect();
    at(format!("merging {qs:?}"));
    let got = PathQuery::merge(refs, v);
    let capped = qs.iter().any(|q| q.query.limit.is_some() || q.query.offset.is_some());
    let odds = at_odds(&qs.iter().map(start).collect::<Vec<_>>(), 0);
    ctx.case(("merge", qs.iter().map(|q| format!("{q:?}")).collect::<Vec<_>>()), !odds && !capped && qs.len() > 1);
    if qs.is_empty() { chk!(got.is_err(), "merging nothing gives {got:?}"); return Ok(()); }
    if qs.len() > 1 && capped { chk!(got.is_err(), "merging path queries with a limit or offset gives {got:?}"); return Ok(()); }
    let m = match got { Ok(m) => m, Err(e) => fail!("merging {qs:?} is refused: {e}") };
    if qs.len() == 1 { chk!(m == qs[0], "merging one path query gives another one: {m:?} from {:?}", qs[0]); return Ok(()); }
    chk!(m.query.limit.is_none() && m.query.offset.is_none(), "the merged query has a limit or offset");
    if odds { return Ok(()); } // the known finding's class
    let want: BTreeSet<_> = qs.iter().flat_map(all_selected).collect();
    let have = all_selected(&m);
    if let Some(x) = want.difference(&have).next() { fail!("merging {qs:?} loses {x:?}: {m:?}"); }
    if let Some(x) = have.difference(&want).next() { fail!("merging {qs:?} adds {x:?}: {m:?}"); }
    Ok(())
}

/// The known finding: two queries over one subtree, one of which has a default branch.
fn merge_default(ctx: &mut Ctx) -> R {
    let v = GroveVersion::latest();
    let mut deep = Query::new();
    deep.insert_key(b"A".to_vec());
    let mut below = Query::new();
    below.insert_key(b"x".to_vec());
    deep.set_subquery(below);
    let mut below = Query::new();
    below.insert_key(b"y".to_vec());
    let mut cond = Query::new();
    cond.insert_key(b"A".to_vec());
    cond.add_conditional_subquery(QueryItem::Key(b"A".to_vec()), None, Some(below));
    let qs = [PathQuery::new_unsized(vec![], deep), PathQuery::new_unsized(vec![], cond)];
    let m = PathQuery::merge(qs.iter().collect(), v);
    let m = match m { Ok(m) => m, Err(e) => fail!("merging {qs:?} is refused: {e}") };
    let want: BTreeSet<_> = qs.iter().flat_map(all_selected).collect();
    let have = all_selected(&m);
    ctx.case("merge-default-lost", true);
    if have != want && ctx.known("merge-default-lost") { return Ok(()); }
    chk!(have == want, "merging {qs:?} selects {have:?}, not {want:?}");
    Ok(())
}

pub fn c26(ctx: &mut Ctx) -> R {
    ctx.rule("random path queries (branches up to four deep, branch paths of 0-3 segments, overlapping conditions) asked at random paths that mostly follow them, against a walk of one segment at a time; random lists of path queries merged, their selections compared over a five-deep tree of subtrees and items");
    for _ in 0..ctx.n(40_000) {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng;
        let (n, d) = (r.us(4), r.us(4));
        let path = segs(r, n);
        let q = PathQuery::new(path, SizedQuery::new(query(r, d), None, None));
        for _ in 0..6 {
            let p = follow(&q, &mut ctx.rng);
            let kind = check_at(&q, &p)?;
            ctx.case(("at", format!("{q:?}"), p), kind > 0);
        }
    }
    {
        let mut v = GroveVersion::latest().clone();
        v.grovedb_versions.path_query_methods.query_items_at_path = 1;
        let q = PathQuery::new_unsized(vec![], Query::new());
        chk!(q.query_items_at_path(&[], &v).is_err(), "query_items_at_path runs under a version it does not know");
        let mut v = GroveVersion::latest().clone();
        v.grovedb_versions.path_query_methods.should_add_parent_tree_at_path = 1;
        chk!(q.should_add_parent_tree_at_path(&[], &v).is_err(), "should_add_parent_tree_at_path runs under a version it does not know");
        let mut v = GroveVersion::latest().clone();
        v.grovedb_versions.path_query_methods.merge = 1;
        chk!(PathQuery::merge(vec![&q], &v).is_err(), "merge runs under a version it does not know");
    }
    merge_default(ctx)?;
    for _ in 0..ctx.n(20_000) {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng;
        let style = r.below(4);
        let n = match r.below(20) { 0 => 0, 1 => 1, 2..=12 => 2, _ => 3 + r.us(2) };
        if style == 1 && n > 1 && r.coin() {
            // each subtree belongs to one query, which descends by default or by a condition
            let own: Vec<usize> = TREES.iter().map(|_| r.us(n)).collect();
            let l = r.us(2);
            let qs: Vec<PathQuery> = (0..n).map(|i| {
                let d = 1 + r.us(2);
                let mut q = mquery(r, 0, 0);
                if r.chance(3, 4) { q.default_subquery_branch = mbranch(r, d, 0); }
                for (t, _) in TREES.iter().zip(&own).filter(|(_, o)| **o == i) {
                    q.insert_key(t.to_vec());
                    if r.chance(1, 3) || q.default_subquery_branch.subquery.is_none() { q.conditional_subquery_branches.get_or_insert_with(Default::default).insert(QueryItem::Key(t.to_vec()), mbranch(r, d, 0)); }
                }
                PathQuery::new_unsized(vec![b"A".to_vec(); l], q)
            }).collect();
            check_merge(&qs, ctx)?;
            continue;
        }
        let qs: Vec<PathQuery> = (0..n).map(|_| {
            let (a, d) = (r.us(4), r.us(3));
            let path = (0..a).map(|i| if i == 0 && r.chance(2, 3) { b"A".to_vec() } else { r.pick(&TREES).to_vec() }).collect();
            let l = if r.chance(1, 60) { Some(3) } else { None };
            let o = if r.chance(1, 60) { Some(3) } else { None };
            PathQuery::new(path, SizedQuery::new(mquery(r, d, style), l, o))
        }).collect();
        check_merge(&qs, ctx)?;
    }
    Ok(())
}
