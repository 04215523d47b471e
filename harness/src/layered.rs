//! C25: proofs of layered databases, honest and forged, against the database itself.
use crate::memctx::MemCtx;
use crate::merkmodel::*;
use crate::pathquery::{Pos, descends, inside, selects, start, step};
use crate::{honest_ops, mangle};
use grovedb::operations::proof::{GroveDBProof, GroveDBProofV1, LayerProof, ProofBytes};
use grovedb::{Element, GroveDb, PathQuery, SizedQuery, VerifyOptions};
use grovedb_bulk_append_tree::{BulkAppendTree, BulkAppendTreeProof};
use grovedb_dense_fixed_sized_merkle_tree::{DenseFixedSizedMerkleTree, DenseTreeProof, position_key};
use grovedb_element::reference_path::ReferencePathType;
use grovedb_merk::proofs::{Node, Op};
use grovedb_merkle_mountain_range::{MMR, MMRStoreReadOps, MemStore, MmrNode, MmrTreeProof};
use grovedb_query::proofs::{TreeFeatureType, encode_into};
use grovedb_query::{Query, QueryItem, SubqueryBranch};
use grovedb_version::version::GroveVersion;
use std::collections::BTreeMap;
use verif_harness::*;

type K = Vec<u8>;
pub enum Low {
    Merk(Db),
    Mmr(Vec<K>, u64, MemStore),
    Bulk(Vec<K>, u8, BulkAppendTree<MemCtx>),
    Commit(H, Vec<K>, u8, BulkAppendTree<MemCtx>),
    Dense(Vec<K>, u8, MemCtx),
}
pub struct Db { tree: MTree, low: BTreeMap<K, Low>, els: BTreeMap<K, Element>, deep: usize }

fn ver() -> &'static GroveVersion { GroveVersion::latest() }
fn ser(e: &Element) -> Vec<u8> { e.serialize(ver()).unwrap() }
fn flags(r: &mut Rng) -> Option<K> { if r.chance(1, 4) { let n = r.us(3); Some(r.bytes(n)) } else { None } }
fn dense_root(vals: &[K], cap: usize, pos: usize) -> H {
    if pos >= cap || pos >= vals.len() { return ZERO; }
    b3(&[&b3(&[&vals[pos]]), &dense_root(vals, cap, 2 * pos + 1), &dense_root(vals, cap, 2 * pos + 2)])
}
impl Low {
    fn hash(&self) -> H {
        match self {
            Low::Merk(d) => d.tree.hash(),
            Low::Mmr(v, n, s) => if v.is_empty() { ZERO } else { MMR::new(*n, s).get_root().value.unwrap().hash() },
            Low::Bulk(v, h, t) => bulk_root(v, *h, t),
            Low::Commit(s, v, h, t) => b3(&[b"ct_state", s, &bulk_root(v, *h, t)]),
            Low::Dense(v, h, _) => dense_root(v, (1 << h) - 1, 0),
        }
    }
    fn vals(&self) -> &[K] { match self { Low::Merk(_) => &[], Low::Mmr(v, ..) | Low::Bulk(v, ..) | Low::Commit(_, v, ..) | Low::Dense(v, ..) => v } }
    fn width(&self) -> usize { if matches!(self, Low::Dense(..)) { 2 } else { 8 } }
    fn key(&self, p: usize) -> K { let b = (p as u64).to_be_bytes(); b[8 - self.width()..].to_vec() }
}
fn bulk_root(v: &[K], h: u8, t: &BulkAppendTree<MemCtx>) -> H {
    let whole = BulkAppendTreeProof::generate(&{ let mut q = Query::new(); q.items.push(QueryItem::RangeFull(..)); q }, t).unwrap();
    whole.verify_and_compute_root(h, v.len() as u64).unwrap().0
}
/// a value whose hash in its tree is also the hash of a merk tree of one made-up item
fn posing(kind: usize) -> (K, K, K) {
    let key = vec![0u8; if kind == 9 { 2 } else { 8 }];
    (0u32..).map(|n| { let item = ser(&Element::Item(n.to_be_bytes().to_vec(), None)); let vh = hv(&item); (vh, item) })
        .find_map(|(vh, item)| {
            let kv = hkv(&key, &vh);
            if kind == 9 { return Some(([varint(key.len() as u64), key.clone(), vh.to_vec()].concat(), key.clone(), item)); }
            if kv[0] == 0 { Some(([kv[1..].to_vec(), ZERO.to_vec(), ZERO.to_vec()].concat(), key.clone(), item)) } else { None }
        }).unwrap()
}
fn word(r: &mut Rng) -> K { if r.chance(1, 50) { let n = if r.chance(1, 20) { *r.pick(&[16_380usize, 16_384, 65_530, 65_536, 70_000]) } else { *r.pick(&[120usize, 124, 126, 128, 130, 248, 251, 256, 300]) }; return r.bytes(n); } match r.below(8) { 0 => vec![], 1 => vec![0; 32], _ => { let n = 1 + r.us(4); r.bytes(n) } } }

pub fn database(r: &mut Rng, depth: usize) -> Db { db_of(r, depth, false) }
fn db_of(r: &mut Rng, depth: usize, counted: bool) -> Db {
    let n = 1 + r.us(5);
    let mut keys = std::collections::BTreeSet::new();
    while keys.len() < n { keys.insert(if r.chance(1, 40) { let n = *r.pick(&[126usize, 127, 128, 129, 255]); vec![b'a' + r.below(6) as u8; n] } else { match r.below(9) { 0 => vec![b'a', b'a' + r.below(2) as u8], 1 => vec![0; 8], 2 => (r.below(3) as u16).to_be_bytes().to_vec(), _ => vec![b'a' + r.below(6) as u8] } }); }
    let (mut low, mut els, mut kv, mut deep) = (BTreeMap::new(), BTreeMap::new(), vec![], 0);
    for k in keys {
        let f = flags(r);
        let kind = r.below(if depth == 0 { 6 } else { 14 });
        let (e, l): (Element, Option<Low>) = match kind {
            0 => (Element::SumItem(r.edge() as i64, f), None),
            1 => (Element::ItemWithSumItem(word(r), 5, f), None),
            2 => (match r.below(7) { 0 => Element::Tree(None, f), 1 => Element::SumTree(None, 0, f), 2 => Element::BigSumTree(None, 0, f), 3 => Element::CountTree(None, 0, f), 4 => Element::ProvableCountTree(None, 0, f), 5 => Element::ProvableCountSumTree(None, 0, 0, f), _ => Element::CountSumTree(None, 0, 0, f) }, None),
            3 => { let to = ser(&Element::Item(word(r), None)); let e = Element::Reference(ReferencePathType::AbsolutePathReference(vec![vec![b'z'], word(r)]), None, f); kv.push((k.clone(), Stored::Ref(ser(&e), to))); els.insert(k, e); continue }
            4 | 5 => (Element::Item(word(r), f), None),
            6 => { let vals: Vec<K> = if r.chance(1, 6) { vec![posing(6).0] } else { (0..r.us(7)).map(|_| word(r)).collect() }; let s = MemStore::default(); let mut m = MMR::new(0, &s); for v in &vals { m.push(MmrNode::leaf(v.clone())).value.unwrap(); } m.commit().value.unwrap(); let n = m.mmr_size; drop(m); (Element::MmrTree(n, f), Some(Low::Mmr(vals, n, s))) }
            7 | 8 => {
                let h = 1 + r.below(3) as u8;
                let vals: Vec<K> = (0..r.us(10)).map(|_| word(r)).collect();
                let mut t = BulkAppendTree::new(h, MemCtx::default()).unwrap();
                for v in &vals { t.append(v).unwrap(); }
                if kind == 7 { (Element::BulkAppendTree(vals.len() as u64, h, f), Some(Low::Bulk(vals, h, t))) }
                else { let s: H = r.bytes(32).try_into().unwrap(); (Element::CommitmentTree(vals.len() as u64, h, f), Some(Low::Commit(s, vals, h, t))) }
            }
            9 => {
                let h = 1 + r.below(3) as u8;
                let vals: Vec<K> = if r.chance(1, 6) { vec![posing(9).0] } else { (0..r.us(1 << h)).map(|_| word(r)).collect() };
                let m = MemCtx::default();
                for (i, v) in vals.iter().enumerate() { m.0.data.borrow_mut().insert(position_key(i as u16).to_vec(), v.clone()); }
                (Element::DenseAppendOnlyFixedSizeTree(vals.len() as u16, h, f), Some(Low::Dense(vals, h, m)))
            }
            _ => {
                let kind = r.below(7);
                let d = db_of(r, depth - 1, kind >= 5);
                deep = deep.max(d.deep + 1);
                let (root, c) = (Some(d.tree.root.as_ref().unwrap().key.clone()), d.els.len() as u64);
                (match kind { 0 | 1 => Element::Tree(root, f), 2 => Element::SumTree(root, 3, f), 3 => if r.coin() { Element::BigSumTree(root, 9, f) } else { Element::CountTree(root, c, f) }, 4 => Element::CountSumTree(root, c, -1, f), 5 => Element::ProvableCountTree(root, c, f), _ => Element::ProvableCountSumTree(root, c, 2, f) }, Some(Low::Merk(d)))
            }
        };
        let v = ser(&e);
        kv.push((k.clone(), if let Some(l) = &l { Stored::Layer(v, l.hash()) } else if e.is_any_tree() { Stored::Layer(v, ZERO) } else { Stored::Item(v) }));
        if let Some(l) = l { low.insert(k.clone(), l); }
        els.insert(k, e);
    }
    Db { tree: MTree::build(&kv, counted, r), low, els, deep }
}

// ---- queries which mostly follow the database
fn range(r: &mut Rng, mut a: K, mut b: K) -> QueryItem {
    if a > b { std::mem::swap(&mut a, &mut b); }
    if a == b { b.push(0); b.push(0); }
    match r.below(9) { 0 => QueryItem::Range(a..b), 1 => QueryItem::RangeInclusive(a..=b), 2 => QueryItem::RangeFrom(a..), 3 => QueryItem::RangeTo(..b), 4 => QueryItem::RangeToInclusive(..=b), 5 => QueryItem::RangeAfter(a..), 6 => QueryItem::RangeAfterTo(a..b), 7 => QueryItem::RangeAfterToInclusive(a..=b), _ => QueryItem::RangeFull(..) }
}
fn pos_item(r: &mut Rng, l: &Low) -> QueryItem {
    let n = l.vals().len();
    let (a, b) = (r.us(n + 1), r.us(n + 2));
    let (a, b) = if a < b { (a, b) } else { (a, a + 1) };
    if r.chance(1, 3) { return QueryItem::Key(l.key(r.us(n.max(1)))); }
    range(r, l.key(a), l.key(b))
}
fn db_item(r: &mut Rng, d: &Db) -> QueryItem {
    let keys: Vec<&K> = d.els.keys().collect();
    let k = |r: &mut Rng| if r.chance(3, 4) { (*r.pick(&keys)).clone() } else { vec![b'a' + r.below(7) as u8] };
    let (a, b) = (k(r), k(r));
    if r.chance(3, 5) { QueryItem::Key(a) } else { range(r, a, b) }
}
fn query_low(r: &mut Rng, l: &Low) -> Query {
    match l { Low::Merk(d) => query(r, d), l => { let mut q = Query::new_with_direction(r.chance(3, 4)); for _ in 0..1 + r.us(2) { q.insert_item(pos_item(r, l)); } q } }
}
fn branch(r: &mut Rng, d: &Db, k: Option<&K>) -> SubqueryBranch {
    let mut path = vec![];
    let lows: Vec<&K> = d.low.keys().collect();
    let k = match k { Some(k) => Some(k.clone()), None if lows.is_empty() => None, None => Some((*r.pick(&lows)).clone()) };
    let mut at = k.and_then(|k| d.low.get(&k));
    while r.chance(1, 4) {
        let Some(Low::Merk(d)) = at else { break };
        let keys: Vec<&K> = d.els.keys().collect();
        let k = (*r.pick(&keys)).clone();
        at = d.low.get(&k);
        path.push(k);
    }
    SubqueryBranch { subquery_path: if path.is_empty() { None } else { Some(path) }, subquery: match at { Some(l) if r.chance(9, 10) => Some(Box::new(query_low(r, l))), _ => None } }
}
fn query(r: &mut Rng, d: &Db) -> Query {
    let mut q = Query::new_with_direction(r.chance(2, 3));
    for _ in 0..1 + r.us(3) { q.insert_item(db_item(r, d)); }
    q.add_parent_tree_on_subquery = r.chance(1, 6);
    if r.chance(3, 5) { q.default_subquery_branch = branch(r, d, None); }
    if r.chance(2, 3) {
        let mut m: indexmap::IndexMap<_, _> = Default::default();
        for k in d.low.keys() { if r.chance(2, 3) { m.insert(QueryItem::Key(k.clone()), branch(r, d, Some(k))); } }
        if r.chance(1, 5) { let i = db_item(r, d); m.insert(i, branch(r, d, None)); }
        if !m.is_empty() { q.conditional_subquery_branches = Some(m); }
    }
    q
}
fn path_query(r: &mut Rng, top: &Db) -> PathQuery {
    let (mut d, mut path) = (top, vec![]);
    while r.chance(1, 3) {
        let lows: Vec<&K> = d.low.keys().collect();
        if lows.is_empty() { break; }
        let k = (*r.pick(&lows)).clone();
        let l = &d.low[&k];
        path.push(k);
        match l { Low::Merk(x) => d = x, l => { let q = query_low(r, l); return PathQuery::new(path, SizedQuery::new(q, if r.chance(1, 3) { Some(1 + r.below(4) as u16) } else { None }, None)) } }
    }
    if r.chance(1, 20) { path.push(vec![b'a' + r.below(7) as u8]); }
    let q = query(r, d);
    PathQuery::new(path, SizedQuery::new(q, if r.chance(1, 3) { Some(1 + r.below(6) as u16) } else { None }, None))
}

// ---- what a query prescribes on the database, and the layers that show it
#[derive(Clone)]
enum Body { Ops(Vec<Op>), Other(ProofKind, Vec<u8>) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum ProofKind { Mmr, Bulk, Dense, Commit, Merk }
#[derive(Clone)]
struct Pl { body: Body, low: BTreeMap<K, Pl> }
#[derive(Clone, PartialEq, Debug)]
struct Hit { path: Vec<K>, key: K, value: Vec<u8>, hash: H }
struct Walk { out: Vec<Hit>, limit: Option<u16>, empties: bool, ok: bool }
fn items_at(p: &Pos) -> (Vec<QueryItem>, bool) { match p { Pos::At(q) => (q.items.clone(), q.left_to_right), Pos::Along(p, _) => (vec![QueryItem::Key(p[0].clone())], true), Pos::Nowhere => (vec![], true) } }
fn less(l: &mut Option<u16>) { if let Some(l) = l { *l = l.saturating_sub(1); } }
fn child_hash_node(n: Node, low: H) -> Node {
    match n {
        Node::KVValueHash(k, v, h) => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, TreeFeatureType::BasicMerkNode, low),
        Node::KVValueHashFeatureType(k, v, h, f) => Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, low),
        n => n,
    }
}
fn walk(d: &Db, path: &[K], pos: &Pos, w: &mut Walk, r: &mut Rng) -> Pl {
    let (items, l2r) = items_at(pos);
    let mut lq = Query::new();
    lq.items = items;
    lq.left_to_right = l2r;
    let entry = w.limit;
    let mut ops = honest_ops(&d.tree, &lq, entry, l2r, r);
    let stored: BTreeMap<K, Stored> = d.tree.list().into_iter().collect();
    // a bare tree is shown together with the hash of what it holds
    for o in ops.iter_mut() {
        if let Op::Push(n) | Op::PushInverted(n) = o {
            if let (Some(k), Some(_)) = (key_of(n).cloned(), value_of(n)) {
                if let Some(Low::Merk(x)) = d.low.get(&k) { if !descends(pos, &k) { *n = child_hash_node(n.clone(), x.tree.hash()); } }
            }
        }
    }
    let mut keys: Vec<&K> = d.els.keys().filter(|k| selects(pos, k)).collect();
    if !l2r { keys.reverse(); }
    if let Some(l) = entry { keys.truncate(l as usize); }
    let mut low = BTreeMap::new();
    if keys.is_empty() { less(&mut w.limit); }
    for k in keys {
        let e = &d.els[k];
        let st = &stored[k];
        let value = match st { Stored::Ref(_, to) => to.clone(), st => st.bytes().clone() };
        let hash = match st { Stored::Ref(own, _) => hv(own), st => st.hash() };
        let hit = Hit { path: path.to_vec(), key: k.clone(), value, hash };
        if descends(pos, k) && d.low.contains_key(k) {
            let next = step(pos, k);
            let mut sub = path.to_vec();
            sub.push(k.clone());
            let l = &d.low[k];
            if matches!(next, Pos::Nowhere) {
                if !matches!(l, Low::Merk(_)) { low.insert(k.clone(), Pl { body: Body::Ops(vec![Op::Push(Node::Hash(l.hash()))]), low: BTreeMap::new() }); }
                else { low.insert(k.clone(), whole(l, r)); }
                w.out.push(hit);
                less(&mut w.limit);
                if w.limit == Some(0) { break; }
                continue;
            }
            if matches!(pos, Pos::At(q) if q.add_parent_tree_on_subquery) { w.out.push(hit); }
            let pl = match l { Low::Merk(x) => walk(x, &sub, &next, w, r), l => show_low(l, &sub, &next, w) };
            low.insert(k.clone(), pl);
            if w.limit == Some(0) { break; }
        } else if e.is_any_tree() && descends(pos, k) {
            // an empty tree below which nothing is found
        } else if !e.is_any_tree() || w.empties || !matches!(e, Element::Tree(None, _)) {
            w.out.push(hit);
            less(&mut w.limit);
            if w.limit == Some(0) { break; }
        }
    }
    Pl { body: Body::Ops(ops), low }
}
fn whole(l: &Low, r: &mut Rng) -> Pl {
    let Low::Merk(d) = l else { return Pl { body: Body::Ops(vec![Op::Push(Node::Hash(l.hash()))]), low: BTreeMap::new() } };
    let c = d.tree.counted;
    let few = r.coin();
    let ops = describe(&d.tree, true, r, &mut |n, r| if few { None } else { let f = faces(n, c, &[], r); Some(f[r.us(3)].clone()) });
    Pl { body: Body::Ops(ops), low: BTreeMap::new() }
}
fn show_low(l: &Low, path: &[K], pos: &Pos, w: &mut Walk) -> Pl {
    let (items, l2r) = items_at(pos);
    let want: Vec<usize> = (0..l.vals().len()).filter(|p| items.iter().any(|i| inside(i, &l.key(*p)))).collect();
    let mut q = Query::new();
    q.items = items;
    q.left_to_right = l2r;
    for p in &want {
        w.out.push(Hit { path: path.to_vec(), key: l.key(*p), value: ser(&Element::Item(l.vals()[*p].clone(), None)), hash: ZERO });
        less(&mut w.limit);
        if w.limit == Some(0) { break; }
    }
    let made: Option<(ProofKind, Vec<u8>)> = match l {
        Low::Mmr(v, n, s) => {
            let idx: Vec<u64> = want.iter().map(|x| *x as u64).collect();
            let s = &s;
            if v.is_empty() { MmrTreeProof::new(0, vec![], vec![]).encode_to_vec().ok() } else { guard(|| MmrTreeProof::generate(*n, &idx, |p| s.element_at_position(p).value).ok().and_then(|p| p.encode_to_vec().ok())).ok().flatten() }.map(|b| (ProofKind::Mmr, b))
        }
        Low::Bulk(_, _, t) => guard(|| BulkAppendTreeProof::generate(&q, t).ok().and_then(|p| p.encode_to_vec().ok())).ok().flatten().map(|b| (ProofKind::Bulk, b)),
        Low::Commit(s, _, _, t) => guard(|| BulkAppendTreeProof::generate(&q, t).ok().and_then(|p| p.encode_to_vec().ok())).ok().flatten().map(|b| (ProofKind::Commit, [s.to_vec(), b].concat())),
        Low::Dense(v, h, m) => guard(|| DenseFixedSizedMerkleTree::from_state(*h, v.len() as u16, m.clone()).ok().and_then(|t| DenseTreeProof::generate_for_query(&t, &q).unwrap().ok()).and_then(|p| p.encode_to_vec().ok())).ok().flatten().map(|b| (ProofKind::Dense, b)),
        Low::Merk(_) => None,
    };
    if made.is_none() || q.items.iter().flat_map(bounds).any(|b| b.len() != l.width()) { w.ok = false; }
    let (k, b) = made.unwrap_or((ProofKind::Mmr, vec![]));
    Pl { body: Body::Other(k, b), low: BTreeMap::new() }
}
fn bounds(i: &QueryItem) -> Vec<&K> {
    use QueryItem::*;
    match i { Key(k) => vec![k], Range(x) | RangeAfterTo(x) => vec![&x.start, &x.end], RangeInclusive(x) | RangeAfterToInclusive(x) => vec![x.start(), x.end()], RangeFull(_) => vec![], RangeFrom(x) | RangeAfter(x) => vec![&x.start], RangeTo(x) => vec![&x.end], RangeToInclusive(x) => vec![&x.end] }
}
fn layer(p: &Pl) -> LayerProof {
    let b = match &p.body {
        Body::Ops(o) => { let mut b = vec![]; encode_into(o.iter(), &mut b); ProofBytes::Merk(b) }
        Body::Other(ProofKind::Mmr, b) => ProofBytes::MMR(b.clone()),
        Body::Other(ProofKind::Bulk, b) => ProofBytes::BulkAppendTree(b.clone()),
        Body::Other(ProofKind::Dense, b) => ProofBytes::DenseTree(b.clone()),
        Body::Other(ProofKind::Commit, b) => ProofBytes::CommitmentTree(b.clone()),
        Body::Other(ProofKind::Merk, b) => ProofBytes::Merk(b.clone()),
    };
    LayerProof { merk_proof: b, lower_layers: p.low.iter().map(|(k, l)| (k.clone(), layer(l))).collect() }
}
fn bytes(p: &Pl) -> Vec<u8> {
    bincode::encode_to_vec(GroveDBProof::V1(GroveDBProofV1 { root_layer: layer(p) }), bincode::config::standard().with_big_endian().with_no_limit()).unwrap()
}
fn brief(p: &Pl, ind: usize) -> String {
    let t = |s: String| if s.len() > 600 { s.chars().take(600).collect() } else { s };
    let b = match &p.body { Body::Ops(o) => o.iter().map(|o| t(format!("{o:?}"))).collect::<Vec<_>>().join("; "), Body::Other(k, b) => format!("{k:?} {}", hx(b)) };
    let mut s = format!("{}{b}\n", " ".repeat(ind));
    for (k, l) in &p.low { s += &format!("{}below {}:\n{}", " ".repeat(ind), hx(k), brief(l, ind + 2)); }
    s
}
fn sketch(d: &Db, ind: usize) -> String {
    let mut s = String::new();
    for (k, e) in &d.els { s += &format!("{}{} = {e:?}\n", " ".repeat(ind), hx(k)); match d.low.get(k) { Some(Low::Merk(x)) => s += &sketch(x, ind + 2), Some(l) => s += &format!("{}{:?}\n", " ".repeat(ind + 2), l.vals().iter().map(|v| hx(v)).collect::<Vec<_>>()), None => {} } }
    s
}

// ---- what an attacker may do to a genuine proof
fn lie(r: &mut Rng, truth: Option<&Element>) -> Element {
    let f = flags(r);
    let k = Some(vec![b'a' + r.below(6) as u8]);
    let n = r.below(5);
    match r.below(26) {
        18 => Element::CountTree(k, n, f), 19 => Element::CountSumTree(k, n, 4, f), 20 => Element::ProvableCountSumTree(k, n, -2, f), 21 => Element::BigSumTree(None, 8, f), 22 => Element::CountSumTree(None, n, 2, f), 23 => Element::ProvableCountSumTree(None, n, 1, f),
        0 => Element::Tree(None, f), 1 => Element::SumTree(None, r.below(9) as i64, f), 2 => Element::CountTree(None, r.below(3), f), 3 => Element::ProvableCountTree(None, 0, f),
        4 | 5 => Element::Tree(k, f), 6 => Element::SumTree(k, 77, f), 7 => Element::ProvableCountTree(k, r.below(5), f), 8 => Element::BigSumTree(k, 5, f),
        9 => Element::MmrTree(r.below(8), f), 10 => Element::BulkAppendTree(r.below(5), 1 + r.below(3) as u8, f), 11 => Element::DenseAppendOnlyFixedSizeTree(r.below(4) as u16, 2, f), 12 => Element::CommitmentTree(r.below(5), 1, f),
        13 => Element::Reference(ReferencePathType::SiblingReference(vec![b'a']), None, f), 14 => Element::Item(word(r), f), 15 => Element::SumItem(3, f),
        _ => match truth { // the true element with another count, sum or root key
            Some(Element::Tree(_, f)) => Element::Tree(k, f.clone()), Some(Element::SumTree(x, s, f)) => Element::SumTree(x.clone(), s.wrapping_add(1), f.clone()), Some(Element::CountTree(x, c, f)) => Element::CountTree(x.clone(), c + 1, f.clone()),
            Some(Element::BigSumTree(x, s, f)) => Element::BigSumTree(x.clone(), s + 1, f.clone()), Some(Element::CountSumTree(x, c, s, f)) => Element::CountSumTree(x.clone(), *c, s - 1, f.clone()),
            Some(Element::ProvableCountTree(x, c, f)) => Element::ProvableCountTree(x.clone(), c + 1, f.clone()), Some(Element::ProvableCountSumTree(x, c, s, f)) => Element::ProvableCountSumTree(x.clone(), *c, s + 1, f.clone()),
            Some(Element::MmrTree(n, f)) => Element::MmrTree(n + 1, f.clone()), Some(Element::BulkAppendTree(n, h, f)) => Element::BulkAppendTree(n.saturating_sub(1), *h, f.clone()), Some(Element::DenseAppendOnlyFixedSizeTree(n, h, f)) => Element::DenseAppendOnlyFixedSizeTree(n.saturating_sub(1), *h, f.clone()),
            Some(Element::CommitmentTree(n, h, f)) => Element::CommitmentTree(*n + 1, *h, f.clone()), Some(Element::Item(v, _)) => Element::Tree(Some(v.clone()), f), _ => Element::SumItem(-1, f),
        },
    }
}
/// walk to a random layer
fn some_layer<'a, 'b>(p: &'a mut Pl, d: &'b Db, r: &mut Rng) -> (&'a mut Pl, &'b Db) {
    let keys: Vec<K> = p.low.keys().filter(|k| matches!(d.low.get(*k), Some(Low::Merk(_)))).cloned().collect();
    if keys.is_empty() || r.chance(2, 5) { return (p, d); }
    let k = r.pick(&keys).clone();
    let Some(Low::Merk(x)) = d.low.get(&k) else { unreachable!() };
    some_layer(p.low.get_mut(&k).unwrap(), x, r)
}
fn some_low<'a>(p: &'a Pl, r: &mut Rng) -> &'a Pl { let v: Vec<&Pl> = p.low.values().collect(); if v.is_empty() || r.chance(1, 3) { p } else { let i = r.us(v.len()); some_low(v[i], r) } }
fn forge(p: &mut Pl, top: &Db, r: &mut Rng) -> &'static str {
    let donor = some_low(p, r).clone();
    let (p, d) = some_layer(p, top, r);
    let counted = d.tree.counted;
    let keys: Vec<K> = d.els.keys().cloned().collect();
    // replace the node of a key by one with forged bytes under the true hash
    let reface = |p: &mut Pl, r: &mut Rng, only: Option<&K>, e: Option<Element>| {
        let Body::Ops(ops) = &mut p.body else { return };
        let at: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Push(n) | Op::PushInverted(n) if key_of(n).is_some_and(|k| only.is_none_or(|o| o == k)))).map(|x| x.0).collect();
        if at.is_empty() { return; }
        let i = *r.pick(&at);
        let (Op::Push(n) | Op::PushInverted(n)) = &mut ops[i] else { return };
        let k = key_of(n).unwrap().clone();
        let Some(st) = d.tree.list().into_iter().find(|x| x.0 == k).map(|x| x.1) else { return };
        let e = e.unwrap_or_else(|| lie(r, d.els.get(&k)));
        let v = if r.chance(1, 8) { st.bytes().clone() } else { ser(&e) };
        let vh = st.hash();
        let c = match n { Node::KVCount(_, _, c) | Node::KVDigestCount(_, _, c) | Node::KVRefValueHashCount(_, _, _, c) => *c, Node::KVValueHashFeatureType(_, _, _, f) | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) => match f { TreeFeatureType::ProvableCountedMerkNode(c) | TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => *c, _ => 1 }, _ => 1 };
        let ft = if counted { if r.coin() { TreeFeatureType::ProvableCountedMerkNode(c) } else { TreeFeatureType::ProvableCountedSummedMerkNode(c, 0) } } else if r.coin() { TreeFeatureType::BasicMerkNode } else { TreeFeatureType::SummedMerkNode(4) };
        let low = match &st { Stored::Layer(_, l) if r.coin() => *l, Stored::Ref(_, to) => hv(to), _ => if r.coin() { ZERO } else { hv(&v) } };
        *n = match r.below(8) {
            0 | 1 if !counted => Node::KVValueHash(k, v, vh),
            0..=4 => Node::KVValueHashFeatureType(k, v, vh, ft),
            5 => Node::KVValueHashFeatureTypeWithChildHash(k, v, vh, ft, low),
            6 => if counted { Node::KVRefValueHashCount(k, v, hv(st.bytes()), c) } else { Node::KVRefValueHash(k, v, hv(st.bytes())) },
            _ => if counted { Node::KVCount(k, v, c) } else { Node::KV(k, v) },
        };
    };
    let lows: Vec<K> = p.low.keys().cloned().collect();
    let bare = |h: H| Pl { body: Body::Ops(vec![Op::Push(Node::Hash(h))]), low: BTreeMap::new() };
    let posers: Vec<(K, usize)> = lows.iter().filter_map(|k| match d.low.get(k) { Some(Low::Dense(v, ..)) if v.len() == 1 => Some((k.clone(), 9)), Some(Low::Mmr(v, ..)) if v.len() == 1 => Some((k.clone(), 6)), _ => None }).collect();
    if !posers.is_empty() && r.chance(1, 3) {
        let (k, kind) = r.pick(&posers).clone();
        let (_, key, item) = posing(kind);
        p.low.insert(k, Pl { body: Body::Ops(vec![Op::Push(Node::KV(key, item))]), low: BTreeMap::new() });
        return "a value opened as a merk tree";
    }
    if r.chance(1, 6) {
        // the values below, in another order
        let mut some: Vec<&mut Pl> = p.low.values_mut().filter(|l| matches!(l.body, Body::Other(ProofKind::Mmr | ProofKind::Dense, _))).collect();
        if !some.is_empty() {
            let i = r.us(some.len());
            if let Body::Other(kind, b) = &mut some[i].body {
                if *kind == ProofKind::Mmr {
                    if let Ok(x) = MmrTreeProof::decode_from_slice(b) { let mut v = x.leaves().to_vec(); if v.len() > 1 { r.shuffle(&mut v); *b = MmrTreeProof::new(x.mmr_size(), v, x.proof_items().to_vec()).encode_to_vec().unwrap(); return "values in another order"; } }
                } else {
                    let c = bincode::config::standard().with_big_endian().with_no_limit();
                    type Parts = (Vec<(u16, K)>, Vec<(u16, H)>, Vec<(u16, H)>);
                    if let Ok(((mut v, a, h), _)) = bincode::decode_from_slice::<Parts, _>(b, c.with_limit::<100_000>()) { if v.len() > 1 { r.shuffle(&mut v); *b = bincode::encode_to_vec((v, a, h), c).unwrap(); return "values in another order"; } }
                }
            }
        }
    }
    let valued: Vec<K> = p.low.iter().filter(|(k, l)| matches!(l.body, Body::Other(..)) && matches!(d.low.get(*k), Some(x) if !matches!(x, Low::Merk(_)))).map(|x| x.0.clone()).collect();
    if !valued.is_empty() && r.chance(1, 3) {
        // true proofs of other values than those asked for
        let k = r.pick(&valued).clone();
        let l = &d.low[&k];
        if let (Low::Mmr(v, _, s), true) = (l, r.chance(1, 3)) {
            // the last value read as the first of a mountain range of two
            let n = v.len() as u64;
            if n == 3 || n == 5 {
                let peak = s.element_at_position(2 * n - 4).value.unwrap().unwrap();
                let proof = MmrTreeProof::new(3, vec![(0, v[n as usize - 1].clone())], vec![peak.hash()]);
                p.low.get_mut(&k).unwrap().body = Body::Other(ProofKind::Mmr, proof.encode_to_vec().unwrap());
                return "a smaller mountain range with the same root";
            }
        }
        let q = query_low(r, l);
        let other = show_low(l, &[], &Pos::At(q), &mut Walk { out: vec![], limit: None, empties: true, ok: true });
        if matches!(&other.body, Body::Other(_, b) if !b.is_empty()) { p.low.insert(k, other); return "other values below"; }
    }
    match r.below(14) {
        0 | 1 => { if let Body::Ops(o) = &mut p.body { mangle(o, &d.tree, r); } "mangled" }
        2 | 3 => { reface(p, r, None, None); "reface" }
        4 => { if !lows.is_empty() { let k = r.pick(&lows).clone(); p.low.remove(&k); } "dropped layer" }
        5 | 6 => { if !lows.is_empty() { let k = r.pick(&lows).clone(); p.low.remove(&k); reface(p, r, Some(&k), None); } "dropped layer, refaced" }
        7 => { let k = r.pick(&keys).clone(); let h = match d.low.get(&k) { Some(l) => l.hash(), None => ZERO }; let l = match r.below(4) { 0 => donor, 1 => bare(h), 2 => match d.low.get(&k) { Some(l) => whole(l, r), None => bare(h) }, _ => bare(r.bytes(32).try_into().unwrap()) }; p.low.insert(k.clone(), l); if r.coin() { reface(p, r, Some(&k), None); } "added layer" }
        8 => { if lows.len() > 1 { let (a, b) = (r.pick(&lows).clone(), r.pick(&lows).clone()); let x = p.low.remove(&a).unwrap(); if a != b { let y = p.low.remove(&b).unwrap(); p.low.insert(a, y); } p.low.insert(b, x); } "swapped layers" }
        9 => { if !lows.is_empty() { let k = r.pick(&lows).clone(); p.low.insert(k.clone(), donor); if r.coin() { reface(p, r, Some(&k), None); } } "donated layer" }
        10 => { // another kind of proof, or other bytes, below
            if !lows.is_empty() { let k = r.pick(&lows).clone(); let l = p.low.get_mut(&k).unwrap();
                let mut b = match &l.body { Body::Ops(o) => { let mut b = vec![]; encode_into(o.iter(), &mut b); b } Body::Other(_, b) => b.clone() };
                let kind = match (&l.body, r.coin()) { (Body::Other(k, _), true) => *k, _ => *r.pick(&[ProofKind::Mmr, ProofKind::Bulk, ProofKind::Dense, ProofKind::Commit, ProofKind::Merk]) };
                if !b.is_empty() && r.chance(4, 5) { let i = r.us(b.len()); match r.below(4) { 0 => b[i] ^= 1 << r.below(8), 1 => { b.remove(i); } 2 => b.insert(i, r.below(256) as u8), _ => b[i] = b[i].wrapping_add(1) } }
                l.body = Body::Other(kind, b); }
            "other bytes below" }
        11 => { if let Some(k) = lows.first() { let h = d.low.get(k).map_or(ZERO, |l| l.hash()); p.low.insert(k.clone(), bare(h)); } "pruned layer" }
        12 => { // show another part of the tree
            let mut q = Query::new(); for _ in 0..1 + r.us(3) { let i = db_item(r, d); q.insert_item(i); }
            let lim = if r.coin() { Some(1 + r.below(3) as u16) } else { None }; p.body = Body::Ops(honest_ops(&d.tree, &q, lim, r.coin(), r)); "another part" }
        _ => { // the same elements proved below another tree's value
            if !lows.is_empty() { let k = r.pick(&lows).clone(); let e = match (r.below(4), d.els.get(&k)) { (0, Some(Element::MmrTree(..))) => Element::BulkAppendTree(1, 1, None), (1, _) => Element::MmrTree(1, None), (2, _) => Element::DenseAppendOnlyFixedSizeTree(1, 1, None), _ => Element::Tree(Some(vec![b'a']), None) }; reface(p, r, Some(&k), Some(e)); }
            "retyped" }
    }
}
fn non_merk(e: &Element) -> bool { matches!(e, Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::CommitmentTree(..) | Element::DenseAppendOnlyFixedSizeTree(..)) }
/// the element the database holds there
fn lookup<'a>(d: &'a Db, path: &[K], key: &K) -> Option<&'a Element> {
    match path.split_first() { None => d.els.get(key), Some((a, rest)) => match d.low.get(a) { Some(Low::Merk(x)) => lookup(x, rest, key), _ => None } }
}
fn has_layer(p: &Pl, path: &[K], key: &K) -> bool { match path.split_first() { None => p.low.contains_key(key), Some((a, rest)) => p.low.get(a).is_some_and(|l| has_layer(l, rest, key)) } }

/// what a parent carries of its subtree's counts and sums
fn sums(e: &Element) -> Option<TreeFeatureType> {
    use TreeFeatureType::*;
    Some(match e {
        Element::Tree(..) | Element::CommitmentTree(..) | Element::MmrTree(..) | Element::BulkAppendTree(..) | Element::DenseAppendOnlyFixedSizeTree(..) => BasicMerkNode,
        Element::SumTree(_, s, _) => SummedMerkNode(*s),
        Element::BigSumTree(_, s, _) => BigSummedMerkNode(*s),
        Element::CountTree(_, c, _) => CountedMerkNode(*c),
        Element::CountSumTree(_, c, s, _) => CountedSummedMerkNode(*c, *s),
        Element::ProvableCountTree(_, c, _) => ProvableCountedMerkNode(*c),
        Element::ProvableCountSumTree(_, c, s, _) => ProvableCountedSummedMerkNode(*c, *s),
        _ => return None,
    })
}
pub fn c25(ctx: &mut Ctx) -> R {
    ctx.rule("databases of up to three levels with every kind of element; path queries that mostly follow them, with limits; honest proofs, and proofs with 1..3 forgeries in some layer: nodes refaced with forged bytes under the true hash, layers dropped, added, swapped, pruned, retyped, operation lists mangled; every accepted proof with the database's root must return exactly what the query selects; non-trivial: accepted with a result, or forged and refused");
    let mut pool: Vec<Db> = vec![];
    let (mut honest_n, mut forged_ok) = (0u64, 0u64);
    let mut seen: BTreeMap<&'static str, [u64; 2]> = BTreeMap::new();
    for _ in 0..ctx.n(150_000) {
        if ctx.out_of_time() { break; }
        let skip = ctx.known("non-merk-value-unbound");
        let r = &mut ctx.rng;
        if pool.len() < 40 || r.chance(1, 40) { let deep = r.us(4); let d = database(r, deep); if pool.len() < 40 { pool.push(d); } else { let i = r.us(40); pool[i] = d; } }
        let d = &pool[r.us(pool.len())];
        let q = path_query(r, d);
        let raw = r.chance(1, 3);
        let opts = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: r.coin(), include_empty_trees_in_result: r.coin() };
        let mut w = Walk { out: vec![], limit: q.query.limit, empties: raw || opts.include_empty_trees_in_result, ok: true };
        let mut p = walk(d, &[], &start(&q), &mut w, r);
        let mut how = "honest";
        if r.chance(3, 4) { for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) { how = forge(&mut p, d, r); } } 
        let b = bytes(&p);
        let desc = || format!("{how} proof {} of the query {q}\nlayers:\n{}database:\n{}options: raw {raw}, succinct {}, empties {}", hx(&b), brief(&p, 0), sketch(d, 0), opts.verify_proof_succinctness, opts.include_empty_trees_in_result);
        at(format!("{how} proof {} of {q:?}", hx(&b)));
        let succinct = opts.verify_proof_succinctness;
        let empties = opts.include_empty_trees_in_result;
        let got = guard(|| if raw {
            GroveDb::verify_query_raw(&b, &q, ver()).map(|(h, v)| (h, v.into_iter().map(|x| Hit { path: x.path, key: x.key, value: x.value, hash: x.proof }).collect::<Vec<_>>()))
        } else {
            let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: succinct, include_empty_trees_in_result: empties };
            GroveDb::verify_query_with_options(&b, &q, o, ver()).map(|(h, v)| (h, v.into_iter().map(|(path, key, e)| Hit { path, key, value: e.as_ref().map_or(vec![], ser), hash: ZERO }).collect::<Vec<_>>()))
        });
        let got = match got { Ok(g) => g, Err(e) => fail!("verification panicked: {e}: {}", desc()) };
        // what the verifier says of the tree the query looks into
        if !q.query.query.has_subquery() {
            let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: succinct, include_empty_trees_in_result: empties };
            match guard(|| GroveDb::verify_query_get_parent_tree_info_with_options(&b, &q, o, ver())) {
                Err(e) => fail!("verification with the parent tree's information panicked: {e}: {}", desc()),
                Ok(Ok((h, t, _))) if h == d.tree.hash() => {
                    let have = q.path.split_last().and_then(|(k, p)| lookup(d, p, k)).and_then(sums);
                    chk!(Some(t) == have, "verified against the database's root, says that the tree at the query's path is {t:?}, the database has {have:?} there: {}", desc());
                    seen.entry("parent").or_default()[0] += 1;
                }
                Ok(x) => {
                    let tree = q.path.split_last().and_then(|(k, p)| lookup(d, p, k)).and_then(sums).is_some();
                    chk!(how != "honest" || !w.ok || !tree, "an honest proof gives no information on the parent tree: {:?}: {}", x.err(), desc());
                }
            }
        } else {
            let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: succinct, include_empty_trees_in_result: empties };
            chk!(r.chance(3, 4) || guard(|| GroveDb::verify_query_get_parent_tree_info_with_options(&b, &q, o, ver()).is_err()) == Ok(true), "parent tree information for a query with subqueries: {}", desc());
        }
        let e = seen.entry(how).or_default();
        let (h, res) = match got {
            Ok(x) => x,
            Err(e) => {
                chk!(how != "honest" || !w.ok, "an honest proof is refused: {e}: {}", desc());
                seen.entry(how).or_default()[1] += 1;
                ctx.case((&b, format!("{q:?}"), raw), how != "honest");
                continue;
            }
        };
        e[0] += 1;
        if h != d.tree.hash() { chk!(how != "honest" || !w.ok, "an honest proof has root {}: {}", hx(&h), desc()); ctx.case((&b, format!("{q:?}"), raw), false); continue; }
        if how == "honest" { honest_n += 1; } else { forged_ok += 1; }
        let mut want = w.out.clone();
        if !raw { for x in &mut want { x.hash = ZERO; } }
        if res != want {
            // known: the value of a tree without a merk below is not bound when nothing below it is shown
            let loose = res.iter().any(|x| match Element::deserialize(&x.value, ver()) { Ok(e) => non_merk(&e) && !has_layer(&p, &x.path, &x.key) && lookup(d, &x.path, &x.key).is_none_or(|t| ser(t) != x.value), Err(_) => false });
            if loose && skip { continue; }
            let show = |v: &Vec<Hit>| v.iter().map(|x| format!("{:?}/{} = {} ({})", x.path.iter().map(|p| hx(p)).collect::<Vec<_>>(), hx(&x.key), Element::deserialize(&x.value, ver()).map_or("?".into(), |e| format!("{e:?}")), hx(&x.hash))).collect::<Vec<_>>().join("\n  ");
            if loose { fail!("known=non-merk-value-unbound verified against the database's root, returns\n  {}\nwhere the database has\n  {}\n{}", show(&res), show(&want), desc()); }
            fail!("verified against the database's root, returns\n  {}\nwhere the database has\n  {}\n{}", show(&res), show(&want), desc());
        }
        ctx.case((&b, format!("{q:?}"), raw), !want.is_empty());
    }
    if std::env::var("VERIF_STATS").is_ok() { eprintln!("honest {honest_n} forged accepted with the root {forged_ok}: {seen:?}"); }
    Ok(())
}

// ---- C31: absence, boundary keys, and the ways of verifying
/// only single keys, and something asked for below every key that is descended into
fn keys_only(q: &mut Query, r: &mut Rng, ranges: bool) {
    let mut items: Vec<QueryItem> = vec![];
    for i in std::mem::take(&mut q.items) {
        match i { QueryItem::Key(_) => items.push(i), i if ranges && r.coin() => items.push(i), i => { let b = bounds(&i).first().map(|k| (*k).clone()).unwrap_or(vec![b'a']); items.push(QueryItem::Key(b)) } }
    }
    for i in items { q.insert_item(i); }
    if let Some(s) = &mut q.default_subquery_branch.subquery { keys_only(s, r, ranges); }
    if let Some(m) = &mut q.conditional_subquery_branches { for b in m.values_mut() { if let Some(s) = &mut b.subquery { keys_only(s, r, ranges); } } }
}
/// what a verifier would be shown there
fn found(d: &Db, path: &[K], key: &K) -> Option<K> {
    match path.split_first() {
        None => d.tree.list().into_iter().find(|x| x.0 == *key).map(|x| match x.1 { Stored::Ref(_, to) => to, st => st.bytes().clone() }),
        Some((a, rest)) => match d.low.get(a)? {
            Low::Merk(x) => found(x, rest, key),
            l => if rest.is_empty() { (0..l.vals().len()).find(|p| l.key(*p) == *key).map(|p| ser(&Element::Item(l.vals()[p].clone(), None))) } else { None },
        },
    }
}
type Answer = Result<(H, Vec<(Vec<K>, K, Option<Element>)>), String>;
fn same(a: &Answer, b: &Answer) -> bool { match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false } }
fn absent(proof: &[u8], q: &PathQuery, succinct: bool, empties: bool, how: u64) -> Answer {
    let o = VerifyOptions { absence_proofs_for_non_existing_searched_keys: true, verify_proof_succinctness: succinct, include_empty_trees_in_result: empties };
    let parsed = || -> GroveDBProof { bincode::decode_from_slice(proof, bincode::config::standard().with_big_endian().with_no_limit()).unwrap().0 };
    match (how, succinct, empties) {
        (0, true, false) => GroveDb::verify_query_with_absence_proof(proof, q, ver()),
        (0, false, false) => GroveDb::verify_subset_query_with_absence_proof(proof, q, ver()),
        (1, true, false) => parsed().verify_with_absence_proof(q, ver()),
        (1, false, false) => parsed().verify_subset_with_absence_proof(q, ver()),
        (1, ..) => parsed().verify_with_options(q, o, ver()),
        _ => GroveDb::verify_query_with_options(proof, q, o, ver()),
    }.map_err(|e| e.to_string())
}
/// the layers of a proof that verification goes through, with the database's trees
fn visited<'a>(p: &'a Pl, d: &'a Db, pos: &Pos, path: &[K], out: &mut Vec<(Vec<K>, &'a Pl, &'a Db)>) {
    if matches!(pos, Pos::Nowhere) { return; }
    out.push((path.to_vec(), p, d));
    for (k, l) in &p.low {
        if let (Some(Low::Merk(x)), true) = (d.low.get(k), matches!(l.body, Body::Ops(_))) { let mut s = path.to_vec(); s.push(k.clone()); visited(l, x, &step(pos, k), &s, out); }
    }
}
pub fn c31(ctx: &mut Ctx) -> R {
    ctx.rule("databases of up to three levels with every kind of element; path queries of single keys (some with ranges), present and missing, limited to their number of terminal keys or a little more; honest proofs, and proofs with 1..3 forgeries, verified with absence in every way the library offers; the boundary keys of every layer gone through; chains of queries; non-trivial: some key is missing or the proof is forged");
    let mut pool: Vec<Db> = vec![];
    let mut seen: BTreeMap<&'static str, u64> = BTreeMap::new();
    for _ in 0..ctx.n(120_000) {
        if ctx.out_of_time() { break; }
        let r = &mut ctx.rng;
        if pool.len() < 40 || r.chance(1, 40) { let deep = r.us(4); let d = database(r, deep); if pool.len() < 40 { pool.push(d); } else { let i = r.us(40); pool[i] = d; } }
        let d = &pool[r.us(pool.len())];
        let mut q = path_query(r, d);
        let ranges = r.chance(1, 5);
        keys_only(&mut q.query.query, r, ranges);
        let Ok(terms) = q.terminal_keys(500, ver()) else { *seen.entry("not enumerable").or_default() += 1; continue };
        let spare = *r.pick(&[0usize, 0, 1, 5]);
        q.query.limit = Some((terms.len() + spare) as u16);
        if terms.is_empty() { continue; }
        let (succinct, empties, how_ask) = (r.coin(), r.chance(1, 3), r.below(3));
        let mut w = Walk { out: vec![], limit: q.query.limit, empties, ok: true };
        let mut p = walk(d, &[], &start(&q), &mut w, r);
        let mut how = "honest";
        if r.chance(1, 2) { for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) { how = forge(&mut p, d, r); } }
        let b = bytes(&p);
        let desc = || format!("{how} proof {} of the query {q}\nlayers:\n{}database:\n{}succinct {succinct}, empties {empties}, way {how_ask}", hx(&b), brief(&p, 0), sketch(d, 0));
        at(format!("absence: {how} proof {} of {q:?}", hx(&b)));
        let got = match guard(|| absent(&b, &q, succinct, empties, how_ask)) { Ok(g) => g, Err(e) => fail!("verification with absence panicked: {e}: {}", desc()) };
        let (h, res) = match got {
            Ok(x) => x,
            Err(e) => { chk!(how != "honest" || !w.ok, "an honest proof is refused with absence: {e}: {}", desc()); continue }
        };
        if h != d.tree.hash() { chk!(how != "honest" || !w.ok, "an honest proof has root {}: {}", hx(&h), desc()); continue; }
        *seen.entry(how).or_default() += 1;
        let asked: Vec<(Vec<K>, K)> = res.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
        chk!(asked == terms, "verified with absence, the keys listed are {asked:?} and not the terminal keys {terms:?}: {}", desc());
        let mut missing = false;
        for (path, key, e) in &res {
            let have = found(d, path, key);
            match (e, have) {
                (Some(e), have) => {
                    if non_merk(e) && !has_layer(&p, path, key) { continue; } // C25, KF1
                    chk!(have.as_ref() == Some(&ser(e)), "verified with absence against the database's root, {path:?}/{key:?} is {e:?}, the database has {have:?}: {}", desc());
                }
                (None, Some(t)) => {
                    let t = Element::deserialize(&t, ver()).unwrap();
                    let empty = t.is_any_tree() && !t.is_non_empty_tree();
                    chk!(empty || ranges, "{path:?}/{key:?} is reported missing, the database with that root has {t:?} there: {}", desc());
                }
                _ => missing = true,
            }
        }
        // boundary keys
        let proof: GroveDBProof = bincode::decode_from_slice(&b, bincode::config::standard().with_big_endian().with_no_limit()).unwrap().0;
        if succinct {
            let mut layers = vec![];
            visited(&p, d, &start(&q), &[], &mut layers);
            for (path, l, x) in layers {
                let Body::Ops(ops) = &l.body else { continue };
                let at: Vec<&[u8]> = path.iter().map(|s| s.as_slice()).collect();
                let want: Vec<&K> = ops.iter().filter_map(|o| match o { Op::Push(Node::KVDigest(k, _) | Node::KVDigestCount(k, ..)) | Op::PushInverted(Node::KVDigest(k, _) | Node::KVDigestCount(k, ..)) => Some(k), _ => None }).collect();
                let got = match proof.boundaries(&at) { Ok(g) => g, Err(e) => fail!("boundaries at {path:?}: {e}: {}", desc()) };
                chk!(got.iter().eq(want.iter().copied()), "boundaries at {path:?} are {got:?}, shown are {want:?}: {}", desc());
                for k in &got { chk!(x.els.contains_key(k), "{k:?} is a boundary key at {path:?}, the database with that root has no such key there: {}", desc()); }
                for k in x.els.keys().chain(got.iter()) {
                    let e = match proof.key_exists_as_boundary(&at, k) { Ok(e) => e, Err(e) => fail!("boundary {k:?} at {path:?}: {e}: {}", desc()) };
                    chk!(e == got.contains(k), "{k:?} at {path:?} exists as a boundary: {e}, boundaries are {got:?}: {}", desc());
                }
                let mut off = path.clone(); off.push(b"no such key".to_vec());
                let off: Vec<&[u8]> = off.iter().map(|s| s.as_slice()).collect();
                chk!(proof.boundaries(&off).is_err() && proof.key_exists_as_boundary(&off, b"a").is_err(), "boundaries of a layer that is not shown: {}", desc());
                *seen.entry("layers").or_default() += 1;
            }
        }
        // the other ways of verifying
        if r.chance(1, 3) {
            let with = |s: bool, e: bool| -> Answer { GroveDb::verify_query_with_options(&b, &q, VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: s, include_empty_trees_in_result: e }, ver()).map_err(|e| e.to_string()) };
            let (full, sub) = (with(true, false), with(false, false));
            let s = |x: Result<(H, Vec<(Vec<K>, K, Option<Element>)>), grovedb::Error>| -> Answer { x.map_err(|e| e.to_string()) };
            chk!(same(&s(GroveDb::verify_query(&b, &q, ver())), &full), "verify_query differs from its options: {}", desc());
            chk!(same(&s(GroveDb::verify_subset_query(&b, &q, ver())), &sub), "verify_subset_query differs from its options: {}", desc());
            chk!(same(&s(proof.verify(&q, ver())), &full), "GroveDBProof::verify differs from verify_query: {}", desc());
            chk!(same(&s(proof.verify_subset(&q, ver())), &sub), "GroveDBProof::verify_subset differs from verify_subset_query: {}", desc());
            match (GroveDb::verify_query_raw(&b, &q, ver()), proof.verify_raw(&q, ver())) { (Ok(x), Ok(y)) => chk!(x == y, "GroveDBProof::verify_raw differs from verify_query_raw: {}", desc()), (Err(_), Err(_)) => (), _ => fail!("GroveDBProof::verify_raw differs from verify_query_raw: {}", desc()) }
            // chained: each query on the answer to the one before
            let mut q2 = path_query(r, d);
            if r.coin() { q2 = q.clone(); }
            let alone = s(GroveDb::verify_subset_query(&b, &q2, ver()));
            let heard = std::cell::RefCell::new(vec![]);
            let chain = |n: usize| { let (h, q2, q) = (&heard, &q2, &q); move |x: Vec<(Vec<K>, K, Option<Element>)>| { h.borrow_mut().push(x); Some(if n == 0 { q2.clone() } else { q.clone() }) } };
            let all = GroveDb::verify_query_with_chained_path_queries(&b, &q, vec![chain(0), chain(1)], ver());
            match (all, &sub, &alone) {
                (Ok((h, v)), Ok(x), Ok(y)) => chk!(h == x.0 && h == y.0 && v == vec![x.1.clone(), y.1.clone(), x.1.clone()] && *heard.borrow() == vec![x.1.clone(), y.1.clone()], "chained queries differ from the queries one by one: {}", desc()),
                (Err(_), Ok(x), Ok(y)) => chk!(x.0 != y.0, "chained queries are refused, each alone is not: {}", desc()),
                (Ok(_), ..) => fail!("chained queries verify, one of them alone does not: {}", desc()),
                _ => (),
            }
            let none = |_: Vec<(Vec<K>, K, Option<Element>)>| -> Option<PathQuery> { None };
            chk!(GroveDb::verify_query_with_chained_path_queries(&b, &q, vec![none], ver()).is_err(), "a chain without a query verifies: {}", desc());
        }
        ctx.case((&b, format!("{q:?}"), succinct), missing || how != "honest");
    }
    if std::env::var("VERIF_STATS").is_ok() { eprintln!("{seen:?}"); }
    Ok(())
}
