//! C23-C27: executing and verifying proofs of one tree and of layered trees.
#[path = "../merkmodel.rs"]
mod merkmodel;
#[path = "../pathquery.rs"]
mod pathquery;
#[path = "../memctx.rs"]
mod memctx;
#[path = "../layered.rs"]
mod layered;
use grovedb_merk::proofs::branch::depth::*;
use grovedb_merk::proofs::query::QueryProofVerify;
use grovedb_merk::proofs::{Node, Op, execute};
use grovedb_query::proofs::encode_into;
use grovedb_query::{Query, QueryItem};
use merkmodel::*;
use std::collections::BTreeMap;
use verif_harness::*;

type K = Vec<u8>;
fn keyset(r: &mut Rng, n: usize) -> Vec<K> {
    let mut s = std::collections::BTreeSet::new();
    while s.len() < n {
        let k = if r.chance(1, 25) { let n = *r.pick(&[126usize, 127, 128, 129, 200, 254, 255]); vec![b'a' + r.below(12) as u8; n] } else { match r.below(8) { 0 => vec![], 1 => vec![255; 1 + r.us(3)], 2 => { let n = r.us(5); r.bytes(n) } _ => vec![b'a' + r.below(12) as u8] } };
        s.insert(k);
    }
    s.into_iter().collect()
}
/// element bytes of a tree or reference kind / of an item kind
fn other_bytes(r: &mut Rng) -> K { let mut b = vec![*r.pick(&[1u8, 2, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14])]; let n = r.us(6); b.extend(r.bytes(n)); b }
fn item_bytes(r: &mut Rng) -> K { let mut b = vec![*r.pick(&[0u8, 0, 3, 9])]; let n = if r.chance(1, 40) { long(r) } else { r.us(40) }; b.extend(r.bytes(n)); b }
/// lengths whose prefix changes width once the first byte is counted
fn long(r: &mut Rng) -> usize { if r.chance(1, 20) { *r.pick(&[16_381usize, 16_382, 16_383, 16_384, 65_534, 65_535, 65_536, 70_000]) } else { *r.pick(&[125usize, 126, 127, 128, 129, 254, 255, 256, 300]) } }
fn stored(r: &mut Rng) -> Stored {
    match r.below(6) {
        0 => Stored::Layer(other_bytes(r), if r.chance(1, 4) { ZERO } else { r.bytes(32).try_into().unwrap() }),
        1 => { let mut b = vec![1u8]; let n = r.us(6); b.extend(r.bytes(n)); Stored::Ref(b, if r.coin() { item_bytes(r) } else { other_bytes(r) }) }
        2 => { let n = r.us(3); Stored::Item(r.bytes(n)) }
        _ => Stored::Item(item_bytes(r)),
    }
}
fn tree(r: &mut Rng, max: usize) -> MTree {
    let n = r.us(max + 1);
    let kv: Vec<(K, Stored)> = keyset(r, n).into_iter().map(|k| (k, stored(r))).collect();
    let counted = r.chance(1, 3);
    MTree::build(&kv, counted, r)
}
/// up to about ninety levels along one path
fn deep(r: &mut Rng) -> MTree {
    let n = 2 * (10 + r.us(80));
    let kv: Vec<(K, Stored)> = (0..n as u16).map(|i| (i.to_be_bytes().to_vec(), stored(r))).collect();
    let counted = r.chance(1, 3);
    MTree::spine(&kv, counted, r)
}
fn brief(ops: &[Op]) -> String {
    let s = |n: &Node| { let t = format!("{n:?}"); if t.len() > 140 { t.chars().take(140).collect() } else { t } };
    ops.iter().map(|o| match o { Op::Push(n) => format!("Push {}", s(n)), Op::PushInverted(n) => format!("PushInverted {}", s(n)), o => format!("{o:?}") }).collect::<Vec<_>>().join("; ")
}
fn random_face(n: &MNode, counted: bool, r: &mut Rng) -> Option<Node> {
    if r.chance(1, 6) { return None; }
    let lie = match r.below(4) { 0 => item_bytes(r), 1 => vec![], _ => other_bytes(r) };
    let f = faces(n, counted, &lie, r);
    Some(if r.chance(3, 5) { f[0].clone() } else { r.pick(&f).clone() })
}
/// change an operation list: what an attacker may do to a genuine one
fn mangle(ops: &mut Vec<Op>, t: &MTree, r: &mut Rng) {
    let inv = matches!(ops.first(), Some(Op::PushInverted(_)));
    let push = |n: Node, flip: bool| if inv ^ flip { Op::PushInverted(n) } else { Op::Push(n) };
    for _ in 0..1 + r.us(3) {
        let n = ops.len();
        let i = r.us(n + 1);
        match r.below(12) {
            0 if n > 0 => { ops.remove(i.min(n - 1)); }
            1 if n > 1 => { let (a, b) = (r.us(n), r.us(n)); ops.swap(a, b); }
            2 if n > 0 => { let o = r.pick(ops).clone(); ops.insert(i, o); }
            3 => { let flip = r.chance(1, 4); ops.insert(i, if (r.coin()) ^ flip ^ inv { Op::Parent } else { Op::Child }); }
            4 => { let o = match r.below(4) { 0 => Op::Parent, 1 => Op::Child, 2 => Op::ParentInverted, _ => Op::ChildInverted }; if n > 0 && r.coin() { let j = i.min(n - 1); ops[j] = o; } else { ops.insert(i, o); } }
            // hang something below a bare hash, before or after it
            5 | 6 => { let f = forged(r); let mut v = vec![push(f, false), push(Node::Hash(t.hash()), false), if inv { Op::ParentInverted } else { Op::Parent }];
                if r.coin() { v = vec![push(Node::Hash(t.hash()), false), push(forged(r), false), if inv { Op::ChildInverted } else { Op::Child }]; }
                if r.coin() { *ops = v; } else { let at = i; for (j, o) in v.into_iter().enumerate() { ops.insert(at + j, o); } } }
            7 => { let hs: Vec<usize> = (0..n).filter(|j| matches!(&ops[*j], Op::Push(Node::Hash(_)) | Op::PushInverted(Node::Hash(_)))).collect();
                if !hs.is_empty() { let j = *r.pick(&hs); let before = r.coin(); let f = push(forged(r), false);
                    if before { ops.insert(j, f); ops.insert(j + 2, if inv { Op::ParentInverted } else { Op::Parent }); } else { ops.insert(j + 1, f); ops.insert(j + 2, if inv { Op::ChildInverted } else { Op::Child }); } } }
            8 if n > 0 => { let j = i.min(n - 1); if let Op::Push(x) | Op::PushInverted(x) = &ops[j] { ops[j] = push(x.clone(), true); } }
            9 => { ops.insert(i, push(Node::Hash(ZERO), false)); let o = if r.coin() { Op::Parent } else { Op::Child }; ops.insert(i + 1, o); }
            10 if n > 0 => { let j = i.min(n - 1); let f = forged(r); ops[j] = push(f, false); }
            _ => { if r.coin() { for o in ops.iter_mut() { *o = match o.clone() { Op::Push(x) => Op::PushInverted(x), Op::PushInverted(x) => Op::Push(x), Op::Parent => Op::ChildInverted, Op::Child => Op::ParentInverted, Op::ParentInverted => Op::Child, Op::ChildInverted => Op::Parent }; } } else { ops.push(push(forged(r), false)); } }
        }
    }
}
fn forged(r: &mut Rng) -> Node {
    let k = match r.below(4) { 0 => vec![], 1 => vec![255, 255, 255, 255], _ => vec![b'a' + r.below(12) as u8] };
    let v = if r.coin() { item_bytes(r) } else { other_bytes(r) };
    let h: H = r.bytes(32).try_into().unwrap();
    match r.below(7) { 0 => Node::KVDigest(k, h), 1 => Node::KVValueHash(k, v, h), 2 => Node::KVHash(h), 3 => Node::Hash(h), 4 => Node::KVCount(k, v, 1), 5 => Node::KVRefValueHash(k, v, h), _ => Node::KV(k, v) }
}

// ---- C23
fn c23_case(ops: &[Op], r: &mut Rng) -> Result<bool, Fail> {
    at(format!("executing [{}]", brief(ops)));
    let shape = interpret(ops);
    let keys: Vec<&K> = ops.iter().filter_map(|o| match o { Op::Push(n) | Op::PushInverted(n) => key_of(n), _ => None }).collect();
    let inv = matches!(ops.first(), Some(Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted));
    let ordered = keys.windows(2).all(|w| if inv { w[0] > w[1] } else { w[0] < w[1] });
    let mut results = vec![];
    for collapse in [false, true] {
        let mut log: Vec<Node> = vec![];
        let res = execute(ops.iter().cloned().map(Ok), collapse, |n| { log.push(n.clone()); Ok(()) }).unwrap();
        let pushed: Vec<&Node> = ops.iter().filter_map(|o| match o { Op::Push(n) | Op::PushInverted(n) => Some(n), _ => None }).collect();
        chk!(log.len() <= pushed.len() && log.iter().zip(&pushed).all(|(a, b)| a == *b), "nodes are not visited in the order they are pushed: [{}]", brief(ops));
        match (&res, &shape) {
            (Ok(_), Err(why)) => fail!("executed although {why} (collapse {collapse}): [{}]", brief(ops)),
            (Ok(t), Ok(s)) => {
                chk!(!s.mixed, "executed although directions are mixed (collapse {collapse}): [{}]", brief(ops));
                chk!(ordered, "executed although keys are out of order (collapse {collapse}): [{}]", brief(ops));
                chk!(!s.hash_parent, "executed although a node is hung below a bare hash (collapse {collapse}): [{}]", brief(ops));
                chk!(log.len() == pushed.len(), "not every pushed node was visited: [{}]", brief(ops));
                let mut want = vec![];
                s.tree.inorder(&mut want);
                if inv { want.reverse(); }
                chk!(want.iter().zip(&log).all(|(a, b)| **a == *b), "nodes are not visited in the order of the tree (collapse {collapse}): [{}]", brief(ops));
                chk!(t.hash().unwrap() == s.tree.hash(), "root hash {} of a tree that hashes to {} (collapse {collapse}): [{}]", hx(&t.hash().unwrap()), hx(&s.tree.hash()), brief(ops));
                if !collapse { same_tree(t, &s.tree, ops)?; }
            }
            // refused although fine: only the documented limits and the balance of the root may be the reason
            (Err(e), Ok(s)) => {
                let (hl, hr) = (s.tree.l.as_ref().map_or(0, |x| x.height()), s.tree.r.as_ref().map_or(0, |x| x.height()));
                let unbalanced = hl.abs_diff(hr) > 1;
                let bare = ops.iter().any(|o| matches!(o, Op::Push(Node::Hash(_)) | Op::PushInverted(Node::Hash(_)))) && interpret_hash_parent(&s.tree);
                chk!(s.mixed || !ordered || s.hash_parent || bare || s.high || (unbalanced && !collapse) || (unbalanced && hl.min(hr) == 0 && hl.max(hr) > 1), "a well-formed proof is refused ({e}; collapse {collapse}): [{}]", brief(ops));
            }
            _ => {}
        }
        results.push(res.is_ok());
    }
    let _ = r;
    Ok(results[0] || results[1])
}
fn interpret_hash_parent(t: &Built) -> bool {
    (matches!(t.node, Node::Hash(_)) && (t.l.is_some() || t.r.is_some())) || t.l.as_ref().is_some_and(|x| interpret_hash_parent(x)) || t.r.as_ref().is_some_and(|x| interpret_hash_parent(x))
}
fn same_tree(t: &grovedb_merk::proofs::Tree, b: &Built, ops: &[Op]) -> R {
    chk!(t.node == b.node, "node {:?} where {:?} belongs: [{}]", t.node, b.node, brief(ops));
    chk!(t.height == b.height(), "height {} of a tree of height {}: [{}]", t.height, b.height(), brief(ops));
    let h = |x: &Option<Box<Built>>| x.as_ref().map_or(0, |x| x.height());
    chk!(t.child_heights == (h(&b.l), h(&b.r)), "child heights {:?}, true ones {:?}: [{}]", t.child_heights, (h(&b.l), h(&b.r)), brief(ops));
    chk!(t.key() == key_of(&b.node).map(|k| k.as_slice()), "key {:?} of {:?}", t.key(), b.node);
    for (left, c, w) in [(true, &t.left, &b.l), (false, &t.right, &b.r)] {
        chk!(t.child(left).map(|x| x.hash) == c.as_ref().map(|x| x.hash), "child({left}) is not the {} child", if left { "left" } else { "right" });
        match (c, w) {
            (None, None) => {}
            (Some(c), Some(w)) => { chk!(c.hash == w.hash(), "a child is recorded with hash {}, its hash is {}: [{}]", hx(&c.hash), hx(&w.hash()), brief(ops)); same_tree(&c.tree, w, ops)?; }
            _ => fail!("a child is missing or invented: [{}]", brief(ops)),
        }
    }
    Ok(())
}
fn c23(ctx: &mut Ctx) -> R {
    ctx.rule("operation lists describing random balanced trees of up to 12 nodes (both directions, plain and counted, any mix of node forms, pruned subtrees), the same lists mangled (removed, swapped, duplicated and flipped operations, forged nodes below bare hashes, invented nulls), chains around the height, stack and operation limits, and every list of up to 5 operations over a small pool: outcome, visit order, root hash, heights and the resulting tree against an independent interpreter");
    // every short list over a small pool
    let pool: Vec<Op> = { let (a, b) = (Node::KV(vec![1], vec![0, 1]), Node::KVDigest(vec![2], [7; 32])); vec![Op::Push(a.clone()), Op::Push(b.clone()), Op::Push(Node::Hash([9; 32])), Op::Push(Node::KVHash([5; 32])), Op::Parent, Op::Child, Op::PushInverted(b), Op::PushInverted(a), Op::ParentInverted, Op::ChildInverted] };
    let depth = if ctx.thorough { 6 } else { 5 };
    let mut r = Rng::new(ctx.seed ^ 5);
    for len in 0..=depth {
        let total = pool.len().pow(len as u32);
        for x in 0..total {
            let mut y = x;
            let ops: Vec<Op> = (0..len).map(|_| { let o = pool[y % pool.len()].clone(); y /= pool.len(); o }).collect();
            let nt = c23_case(&ops, &mut r)?;
            ctx.case((len, x), nt);
        }
        if ctx.out_of_time() { break; }
    }
    for i in 0..ctx.n(30000) {
        if ctx.out_of_time() { break; }
        let mut r = ctx.rng.clone();
        let t = tree(&mut r, 12);
        let l2r = r.coin();
        let counted = t.counted;
        let mut ops = describe(&t, l2r, &mut r, &mut |n, r| random_face(n, counted, r));
        if r.chance(3, 5) { mangle(&mut ops, &t, &mut r); }
        let ok = c23_case(&ops, &mut r)?;
        ctx.rng = r;
        let mut bytes = vec![];
        encode_into(ops.iter(), &mut bytes);
        ctx.case((i % 1, bytes), ok && ops.len() > 1);
    }
    // the documented limits: 92 levels, 10000 pending nodes, 50000 operations
    for (n, ok) in [(91usize, true), (92, true), (93, false), (120, false)] {
        let mut ops = vec![Op::Push(Node::KVHash([1; 32]))];
        for _ in 1..n { ops.push(Op::Push(Node::KVHash([1; 32]))); ops.push(Op::Parent); }
        // balance the root with a chain on the other side
        let mut side = vec![];
        for j in 0..n - 1 { side.push(Op::Push(Node::KVHash([2; 32]))); if j > 0 { side.push(Op::Parent); } }
        ops.extend(side);
        if n > 1 { ops.push(Op::Child); }
        at(format!("a proof tree of {n} levels"));
        let res = execute(ops.into_iter().map(Ok), false, |_| Ok(())).unwrap();
        chk!(res.is_ok() == ok, "a proof tree of {n} levels is {}", if ok { "refused" } else { "accepted" });
        if let Ok(t) = res { chk!(t.height == n && t.child_heights == (n - 1, n - 1), "height {:?} {:?} of a tree of {n} levels", t.height, t.child_heights); }
        ctx.case(("levels", n), true);
    }
    for n in [9_999usize, 10_000, 10_001, 60_000] {
        at(format!("{n} pending nodes"));
        let res = execute((0..n).map(|_| Ok(Op::Push(Node::KVHash([1; 32])))), true, |_| Ok(())).unwrap();
        chk!(res.is_err(), "{n} separate trees are accepted");
        ctx.case(("pending", n), true);
    }
    // a wide collapsed list: many operations on one spine
    for (n, ok) in [(24_999usize, true), (25_000, true), (25_001, false), (40_000, false)] {
        let mut r = Rng::new(n as u64);
        // balanced description with n pushes uses 2n-1 operations
        let ops = wide(n, &mut r);
        at(format!("{} operations", ops.len()));
        let res = execute(ops.iter().cloned().map(Ok), true, |_| Ok(())).unwrap();
        chk!(res.is_ok() == ok, "a proof of {} operations is {}", ops.len(), if ok { "refused" } else { "accepted" });
        ctx.case(("ops", n), true);
    }
    Ok(())
}
fn wide(n: usize, r: &mut Rng) -> Vec<Op> {
    fn go(n: usize, o: &mut Vec<Op>, r: &mut Rng) {
        if n == 0 { return; }
        let l = (n - 1) / 2;
        go(l, o, r);
        o.push(Op::Push(Node::KVHash([r.below(256) as u8; 32])));
        if l > 0 { o.push(Op::Parent); }
        if n - 1 - l > 0 { go(n - 1 - l, o, r); o.push(Op::Child); }
    }
    let mut o = vec![];
    go(n, &mut o, r);
    o
}

// ---- C24
fn qitem(r: &mut Rng, keys: &[K]) -> QueryItem {
    let k = |r: &mut Rng| -> K { if !keys.is_empty() && r.chance(2, 3) { r.pick(keys).clone() } else { match r.below(6) { 0 => vec![], 1 => vec![255; 4], 2 => vec![b'a' + r.below(12) as u8, 0], _ => vec![b'a' + r.below(12) as u8] } } };
    let (mut a, mut b) = (k(r), k(r));
    if a > b { std::mem::swap(&mut a, &mut b); }
    // ranges that can hold a key: the documentation leaves empty ones undefined
    if a == b { b.push(0); b.push(0); }
    match r.below(12) {
        0 => QueryItem::Range(a..b), 1 => QueryItem::RangeInclusive(a..=b), 2 => QueryItem::RangeFull(..), 3 => QueryItem::RangeFrom(a..), 4 => QueryItem::RangeTo(..b),
        5 => QueryItem::RangeToInclusive(..=b), 6 => QueryItem::RangeAfter(a..), 7 => QueryItem::RangeAfterTo(a..b), 8 => QueryItem::RangeAfterToInclusive(a..=b), _ => QueryItem::Key(a),
    }
}
fn within(i: &QueryItem, k: &[u8]) -> bool {
    match i {
        QueryItem::Key(x) => k == &x[..], QueryItem::Range(x) => k >= &x.start[..] && k < &x.end[..], QueryItem::RangeInclusive(x) => k >= &x.start()[..] && k <= &x.end()[..],
        QueryItem::RangeFull(_) => true, QueryItem::RangeFrom(x) => k >= &x.start[..], QueryItem::RangeTo(x) => k < &x.end[..], QueryItem::RangeToInclusive(x) => k <= &x.end[..],
        QueryItem::RangeAfter(x) => k > &x.start[..], QueryItem::RangeAfterTo(x) => k > &x.start[..] && k < &x.end[..], QueryItem::RangeAfterToInclusive(x) => k > &x.start()[..] && k <= &x.end()[..],
    }
}
/// what a careful prover shows: queried keys in full up to the limit, both neighbours of every queried gap as digests, the rest pruned
fn honest_ops(t: &MTree, q: &Query, limit: Option<u16>, l2r: bool, r: &mut Rng) -> Vec<Op> {
    let keys: Vec<K> = t.list().into_iter().map(|x| x.0).collect();
    let hit = |k: &[u8]| q.items.iter().any(|i| within(i, k));
    let mut order: Vec<usize> = (0..keys.len()).collect();
    if !l2r { order.reverse(); }
    // 2: full, 1: digest
    let mut show: BTreeMap<K, u8> = BTreeMap::new();
    let mut left = limit;
    let mut last = None;
    for (p, &i) in order.iter().enumerate() {
        if hit(&keys[i]) {
            if left == Some(0) { break; }
            show.insert(keys[i].clone(), 2);
            if let Some(l) = &mut left { *l -= 1; }
        }
        last = Some(p);
    }
    let stop = if left == Some(0) { order.iter().rposition(|i| show.get(&keys[*i]) == Some(&2)).map_or(0, |p| p + 1) } else { order.len() };
    let _ = last;
    // every key next to a queried region (within the walked part) is shown as a digest
    for p in 0..stop {
        let i = order[p];
        if show.contains_key(&keys[i]) { continue; }
        let lo = if i == 0 { None } else { Some(&keys[i - 1]) };
        let hi = keys.get(i + 1);
        let touches = |a: Option<&K>, b: Option<&K>| q.items.iter().any(|it| meets_gap(it, a, b));
        if touches(lo, Some(&keys[i])) || touches(Some(&keys[i]), hi) || q.items.iter().any(|it| within(it, &keys[i])) { show.insert(keys[i].clone(), 1); }
    }
    let counted = t.counted;
    fn any(n: &Option<Box<MNode>>, s: &BTreeMap<K, u8>) -> bool { n.as_ref().is_some_and(|n| s.contains_key(&n.key) || any(&n.l, s) || any(&n.r, s)) }
    describe(t, l2r, r, &mut |n, r| {
        let f = faces(n, counted, &[], r);
        match show.get(&n.key) { Some(2) => Some(f[0].clone()), Some(_) => Some(f[1].clone()), None => if any(&n.l, &show) || any(&n.r, &show) { Some(f[2].clone()) } else { None } }
    })
}
/// some key strictly between a and b may be queried
fn meets_gap(i: &QueryItem, a: Option<&K>, b: Option<&K>) -> bool {
    let (lo, hi): (Option<&K>, Option<&K>) = match i {
        QueryItem::Key(x) => (Some(x), Some(x)), QueryItem::Range(x) => (Some(&x.start), Some(&x.end)), QueryItem::RangeInclusive(x) => (Some(x.start()), Some(x.end())),
        QueryItem::RangeFull(_) => (None, None), QueryItem::RangeFrom(x) => (Some(&x.start), None), QueryItem::RangeTo(x) => (None, Some(&x.end)), QueryItem::RangeToInclusive(x) => (None, Some(&x.end)),
        QueryItem::RangeAfter(x) => (Some(&x.start), None), QueryItem::RangeAfterTo(x) => (Some(&x.start), Some(&x.end)), QueryItem::RangeAfterToInclusive(x) => (Some(x.start()), Some(x.end())),
    };
    !(lo.is_some_and(|l| b.is_some_and(|b| l > b)) || hi.is_some_and(|h| a.is_some_and(|a| h < a)))
}
pub struct Seen { pub accepted: bool, pub returned: usize }
fn c24_case(t: &MTree, q: &Query, ops: &[Op], bytes: &[u8], limit: Option<u16>, l2r: bool, honest: bool) -> Result<Seen, Fail> {
    let known = |ops: &[Op]| crafted(ops, t);
    let what = || format!("tree {:?} counted {} items {:?} limit {limit:?} l2r {l2r} proof {} [{}]", t.list().iter().map(|(k, s)| (hx(k), match s { Stored::Item(v) => format!("item {}", hx(v)), Stored::Layer(v, _) => format!("layer {}", hx(v)), Stored::Ref(v, to) => format!("ref {} to {}", hx(v), hx(to)) })).collect::<Vec<_>>(), t.counted, q.items, hx(bytes), brief(ops));
    at(format!("verifying {}", what()));
    let res = q.execute_proof(bytes, limit, l2r, 1).unwrap();
    let strict = q.verify_proof(bytes, limit, l2r, t.hash()).unwrap();
    let (root, res) = match res { Ok(x) => x, Err(e) => { chk!(!honest, "the honest proof is refused: {e}: {}", what()); chk!(strict.is_err(), "verify_proof accepts what execute_proof refuses: {}", what()); return Ok(Seen { accepted: false, returned: 0 }) } };
    let same = root == t.hash();
    chk!(strict.is_ok() == same, "verify_proof {} a proof of root {} against root {}: {}", if same { "refuses" } else { "accepts" }, hx(&root), hx(&t.hash()), what());
    chk!(same || !honest, "the honest proof gives another root: {}", what());
    if !same { return Ok(Seen { accepted: false, returned: 0 }); }
    if known(ops) { return Ok(Seen { accepted: true, returned: 0 }); }
    let mut want: Vec<(K, Stored)> = t.list().into_iter().filter(|(k, _)| q.items.iter().any(|i| within(i, k))).collect();
    if !l2r { want.reverse(); }
    let got = &res.result_set;
    chk!(limit.is_none_or(|l| got.len() <= l as usize), "{} results over the limit: {}", got.len(), what());
    chk!(res.limit == limit.map(|l| l - got.len() as u16), "the remaining limit is {:?} after {} results: {}", res.limit, got.len(), what());
    let expect = limit.map_or(want.len(), |l| want.len().min(l as usize));
    chk!(got.len() <= want.len() && got.iter().zip(&want).all(|(g, w)| g.key == w.0), "returned keys {:?}, queried keys in the tree {:?}: {}", got.iter().map(|g| hx(&g.key)).collect::<Vec<_>>(), want.iter().map(|w| hx(&w.0)).collect::<Vec<_>>(), what());
    chk!(got.len() == expect, "{} of {} queried keys returned: {}", got.len(), expect, what());
    for (g, (k, st)) in got.iter().zip(&want) {
        let Some(v) = &g.value else { fail!("key {} is in the tree and is reported absent: {}", hx(k), what()) };
        let simple = matches!(v.first(), Some(0 | 3 | 9));
        let plain = g.proof == st.hash();
        let via_ref = matches!(st, Stored::Ref(rb, to) if to == v && g.proof == hv(rb));
        chk!(plain || via_ref, "key {} returned with hash {} (stored {}): {}", hx(k), hx(&g.proof), hx(&st.hash()), what());
        let truth = v == st.bytes() || via_ref;
        if g.child_hash_verified { chk!(v == st.bytes() && !matches!(st, Stored::Item(_)), "key {} returned with a verified child hash and value {}: {}", hx(k), hx(v), what()); }
        // element types whose hash is the hash of their bytes carry their true bytes
        if simple && !via_ref { chk!(truth && matches!(st, Stored::Item(_)), "key {} returned with the item value {}: {}", hx(k), hx(v), what()); }
        if !simple && !via_ref && matches!(st, Stored::Item(x) if x == v) { continue; }
    }
    Ok(Seen { accepted: true, returned: got.len() })
}
/// the recorded finding: a 63-byte stored value read as the two halves of a combined hash
fn crafted(ops: &[Op], t: &MTree) -> bool {
    let known = std::env::var("VERIF_KNOWN").unwrap_or_default();
    if !known.contains("ref-over-63-byte-item") { return false; }
    let vals: BTreeMap<K, K> = t.list().into_iter().filter_map(|(k, s)| match s { Stored::Item(v) if v.len() == 63 => Some((k, v)), _ => None }).collect();
    ops.iter().any(|o| match o { Op::Push(Node::KVRefValueHash(k, ..) | Node::KVRefValueHashCount(k, ..)) | Op::PushInverted(Node::KVRefValueHash(k, ..) | Node::KVRefValueHashCount(k, ..)) => vals.contains_key(k), _ => false })
}
fn c24(ctx: &mut Ctx) -> R {
    ctx.rule("random balanced trees of up to 9 keys (items, trees, references; plain and counted), queries of up to 4 items of all kinds, both directions, limits 0..6 and none: the proof a careful prover would give must verify; then proofs with any mix of node forms and substituted values, mangled and forged operation lists and flipped bytes: whenever one verifies against the genuine root the results are the queried keys of the tree in order up to the limit, with their stored hashes, and items and values with verified child hash are true");
    // the recorded finding and its shape: an item of 63 bytes that doubles as a combined hash
    {
        // SumItem values until the hash ends in 0, so that the item carrying it has no flags
        let fake = (0..).map(|n: u32| { let mut b = vec![3u8]; b.extend(varint((n as u64) << 1)); b.push(0); b }).find(|b| hv(b)[31] == 0).unwrap();
        let mut v = vec![0u8, 60];
        v.extend([7; 29]);
        v.extend(hv(&fake));
        assert_eq!(v.len(), 63);
        let kv = vec![(vec![b'x'], Stored::Item(v.clone()))];
        let t = MTree::build(&kv, false, &mut Rng::new(1));
        let first: H = { let mut h = [0u8; 32]; h[0] = 63; h[1..].copy_from_slice(&v[..31]); h };
        let ops = vec![Op::Push(Node::KVRefValueHash(vec![b'x'], fake.clone(), first))];
        let mut bytes = vec![];
        encode_into(ops.iter(), &mut bytes);
        let mut q = Query::new();
        q.insert_key(vec![b'x']);
        c24_case(&t, &q, &ops, &bytes, None, true, false)?;
        ctx.case("63-byte item", true);
    }
    // many nodes at once
    {
        let mut r = ctx.rng.clone();
        let n = if ctx.thorough { 24_000 } else { 12_000 };
        let kv: Vec<(K, Stored)> = (0..n as u32).map(|i| (i.to_be_bytes().to_vec(), Stored::Item(vec![0, 1, i as u8]))).collect();
        let t = MTree::build(&kv, false, &mut r);
        let mut q = Query::new();
        q.insert_all();
        for l2r in [true, false] {
            q.left_to_right = l2r;
            let ops = honest_ops(&t, &q, None, l2r, &mut r);
            let mut bytes = vec![];
            encode_into(ops.iter(), &mut bytes);
            let s = c24_case(&t, &q, &ops, &bytes, None, l2r, true)?;
            chk!(s.accepted && s.returned == n, "a query of all of {n} keys returns {}", s.returned);
            ctx.case(("all of", n, l2r), true);
        }
    }
    let (mut acc, mut all) = (0u64, 0u64);
    for _ in 0..ctx.n(40000) {
        if ctx.out_of_time() { break; }
        let mut r = ctx.rng.clone();
        let most = if r.coin() { 4 } else { 9 };
        let t = if r.chance(1, 400) { deep(&mut r) } else { tree(&mut r, most) };
        let keys: Vec<K> = t.list().into_iter().map(|x| x.0).collect();
        let mut q = Query::new();
        for _ in 0..1 + r.us(4) { let i = qitem(&mut r, &keys); q.insert_item(i); }
        let l2r = r.coin();
        let limit = if r.coin() { None } else { Some(r.below(7) as u16) };
        let counted = t.counted;
        if t.root.is_some() && limit != Some(0) {
            let ops = honest_ops(&t, &q, limit, l2r, &mut r);
            let mut bytes = vec![];
            encode_into(ops.iter(), &mut bytes);
            let s = c24_case(&t, &q, &ops, &bytes, limit, l2r, true)?;
            ctx.case(&bytes, s.returned > 0);
        }
        for _ in 0..3 {
            let mut ops = if r.chance(2, 3) { honest_ops(&t, &q, limit, l2r, &mut r) } else { let d = if r.chance(1, 12) { !l2r } else { l2r }; describe(&t, d, &mut r, &mut |n, r| random_face(n, counted, r)) };
            // show nodes differently, or hide them
            for i in 0..ops.len() {
                let inv = matches!(ops[i], Op::PushInverted(_));
                if let Op::Push(n) | Op::PushInverted(n) = &ops[i] {
                    if !r.chance(1, 5) { continue; }
                    let Some(k) = key_of(n) else { continue };
                    if let Some(m) = find(&t.root, k) { let lie = if r.coin() { item_bytes(&mut r) } else { other_bytes(&mut r) }; let f = faces(m, counted, &lie, &mut r); let x = r.pick(&f).clone(); ops[i] = if inv { Op::PushInverted(x) } else { Op::Push(x) }; }
                }
            }
            if r.chance(1, 2) { mangle(&mut ops, &t, &mut r); }
            let mut bytes = vec![];
            encode_into(ops.iter(), &mut bytes);
            if r.chance(1, 10) && !bytes.is_empty() { let i = r.us(bytes.len()); match r.below(3) { 0 => bytes[i] ^= 1 << r.below(8), 1 => bytes.truncate(i), _ => { let n = r.us(4); bytes.extend(r.bytes(n)) } } }
            let s = c24_case(&t, &q, &ops, &bytes, limit, l2r, false)?;
            all += 1;
            acc += s.accepted as u64;
            ctx.case(&bytes, s.accepted);
        }
        ctx.rng = r;
    }
    if std::env::var("VERBOSE").is_ok() { eprintln!("accepted {acc} of {all}"); }
    Ok(())
}
fn find<'a>(n: &'a Option<Box<MNode>>, k: &[u8]) -> Option<&'a MNode> {
    let n = n.as_ref()?;
    match k.cmp(&n.key) { std::cmp::Ordering::Less => find(&n.l, k), std::cmp::Ordering::Greater => find(&n.r, k), _ => Some(n) }
}

// ---- C27
fn c27(ctx: &mut Ctx) -> R {
    ctx.rule("maximum height for every count to 200000, around every minimal node count up to the largest 64-bit count and for random counts, against the minimal node counts of balanced trees computed in 128 bits; chunk depths for every tree depth, maximum and minimum of one byte");
    let mut least: Vec<u128> = vec![0, 1];
    while least.len() < 140 { let n = least.len(); least.push(1 + least[n - 1] + least[n - 2]); }
    let want = |c: u64| (0..least.len()).rev().find(|h| least[*h] <= c as u128).unwrap() as u8;
    let check = |ctx: &mut Ctx, c: u64| -> R {
        at(format!("maximum depth of {c} elements"));
        let g = calculate_max_tree_depth_from_count(c);
        chk!(g == want(c), "the maximum depth of {c} elements is given as {g}, a balanced tree of that many nodes is at most {} high", want(c));
        ctx.case(("count", c), c > 0);
        Ok(())
    };
    for c in 0..200_000u64 { check(ctx, c)?; }
    for l in least.clone() { for d in 0..5u128 { let x = l + d; if x >= 2 && x - 2 <= u64::MAX as u128 { check(ctx, (x - 2) as u64)?; } } }
    for d in 0..1000 { check(ctx, u64::MAX - d)?; }
    for _ in 0..20_000 { let c = ctx.rng.edge(); check(ctx, c)?; }
    for t in 0..=255u8 { for max in 0..=255u8 {
        at(format!("chunk depths of {t} with at most {max}"));
        match calculate_chunk_depths(t, max) {
            Err(_) => chk!(max == 0, "chunk depths of {t} with at most {max} are refused"),
            Ok(c) => {
                chk!(max > 0, "chunk depths of {t} with at most 0 are {c:?}");
                chk!(c.iter().map(|x| *x as u32).sum::<u32>() == t as u32, "chunk depths {c:?} do not add up to {t}");
                chk!(c.iter().all(|x| *x <= max), "chunk depths {c:?} exceed {max}");
                let n = (t as usize).div_ceil(max as usize).max(1);
                chk!(c.len() == n, "chunk depths of {t} with at most {max}: {c:?}, {n} chunks are enough");
                chk!(c.iter().max().unwrap() - c.iter().min().unwrap() <= 1 && c.windows(2).all(|w| w[0] >= w[1]), "chunk depths {c:?} are not an even split with the larger ones in front");
            }
        }
        ctx.case(("even", t, max), max > 0 && t > 0);
    } }
    for t in 0..=255u8 { for max in 0..=255u8 { for min in 0..=255u8 {
        if !ctx.thorough && t > 40 && (t as u32 * 7 + max as u32 * 3 + min as u32) % 5 != 0 { continue; }
        at(format!("chunk depths of {t} with at most {max} and a first of at least {min}"));
        match calculate_chunk_depths_with_minimum(t, max, min) {
            Err(_) => chk!(max == 0 || min == 0 || min > max, "chunk depths of {t} with at most {max} and a first of at least {min} are refused"),
            Ok(c) => {
                chk!(max > 0 && min > 0 && min <= max, "chunk depths of {t} with at most {max} and a first of at least {min}: {c:?}");
                chk!(c.iter().map(|x| *x as u32).sum::<u32>() == t as u32, "chunk depths {c:?} do not add up to {t}");
                chk!(c.iter().all(|x| *x <= max), "chunk depths {c:?} exceed {max}");
                let n = (t as usize).div_ceil(max as usize).max(1);
                chk!(c.len() == n, "chunk depths of {t} with at most {max}: {c:?}, {n} chunks are enough");
                if t > max { chk!(c[0] >= min, "the first of the chunk depths {c:?} is below {min}"); }
                let (a, rest) = (c[0], &c[1..]);
                if let (Some(x), Some(y)) = (rest.iter().max(), rest.iter().min()) { chk!(x - y <= 1 && rest.windows(2).all(|w| w[0] >= w[1]) && (a > min || a >= *x || a == min), "chunk depths {c:?} are not an even split after the first"); }
            }
        }
        ctx.case(("min", t, max, min), true);
    } } if ctx.out_of_time() { break; } }
    Ok(())
}

fn main() {
    main_with(&[("C26", pathquery::c26), ("C23", c23), ("C24", c24), ("C27", c27), ("C25", layered::c25), ("C31", layered::c31)])
}
