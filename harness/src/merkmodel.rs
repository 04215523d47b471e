//! Model of one key-value tree: its hashes (computed here, independently of the code under test) and the
//! operation lists that describe it, honest or not.
use verif_harness::Rng;
use grovedb_merk::proofs::{Node, Op};
use grovedb_query::proofs::TreeFeatureType;

pub type H = [u8; 32];
pub const ZERO: H = [0; 32];
pub fn b3(parts: &[&[u8]]) -> H {
    let mut h = blake3::Hasher::new();
    for p in parts { h.update(p); }
    *h.finalize().as_bytes()
}
pub fn varint(mut n: u64) -> Vec<u8> {
    let mut o = vec![];
    while n >= 128 { o.push((n as u8) | 128); n >>= 7; }
    o.push(n as u8);
    o
}
pub fn hv(v: &[u8]) -> H { b3(&[&varint(v.len() as u64), v]) }
pub fn hkv(k: &[u8], vh: &H) -> H { b3(&[&varint(k.len() as u64), k, vh]) }
pub fn hnode(kv: &H, l: &H, r: &H) -> H { b3(&[kv, l, r]) }
pub fn hnodec(kv: &H, l: &H, r: &H, c: u64) -> H { b3(&[kv, l, r, &c.to_be_bytes()]) }
pub fn hcomb(a: &H, b: &H) -> H { b3(&[a, b]) }

/// what is stored under a key
#[derive(Clone, Debug, PartialEq)]
pub enum Stored {
    /// the stored hash is the hash of the value
    Item(Vec<u8>),
    /// the stored hash combines the value's hash with the root of the layer below
    Layer(Vec<u8>, H),
    /// the stored hash combines the reference's own hash with the hash of the value it points at
    Ref(Vec<u8>, Vec<u8>),
}
impl Stored {
    pub fn hash(&self) -> H {
        match self {
            Stored::Item(v) => hv(v),
            Stored::Layer(v, low) => hcomb(&hv(v), low),
            Stored::Ref(v, to) => hcomb(&hv(v), &hv(to)),
        }
    }
    pub fn bytes(&self) -> &Vec<u8> { match self { Stored::Item(v) | Stored::Layer(v, _) | Stored::Ref(v, _) => v } }
}
#[derive(Clone, Debug)]
pub struct MNode { pub key: Vec<u8>, pub st: Stored, pub l: Option<Box<MNode>>, pub r: Option<Box<MNode>>, pub count: u64, pub ft: TreeFeatureType, pub hash: H }
#[derive(Clone, Debug)]
pub struct MTree { pub root: Option<Box<MNode>>, pub counted: bool }
impl MTree {
    /// a balanced tree over `kv` (sorted by key); when `counted`, node hashes include the subtree count
    pub fn build(kv: &[(Vec<u8>, Stored)], counted: bool, r: &mut Rng) -> MTree { MTree { root: build(kv, counted, r), counted } }
    /// a tree with one long path (as the proofs of a much larger balanced tree show it)
    pub fn spine(kv: &[(Vec<u8>, Stored)], counted: bool, r: &mut Rng) -> MTree { let way = r.below(3); MTree { root: spine(kv, counted, r, way), counted } }
    pub fn hash(&self) -> H { self.root.as_ref().map_or(ZERO, |n| n.hash) }
    pub fn height(&self) -> usize { height(&self.root) }
    pub fn list(&self) -> Vec<(Vec<u8>, Stored)> { let mut o = vec![]; list(&self.root, &mut o); o }
}
pub fn height(n: &Option<Box<MNode>>) -> usize { n.as_ref().map_or(0, |n| 1 + height(&n.l).max(height(&n.r))) }
fn list(n: &Option<Box<MNode>>, o: &mut Vec<(Vec<u8>, Stored)>) { if let Some(n) = n { list(&n.l, o); o.push((n.key.clone(), n.st.clone())); list(&n.r, o); } }
fn build(kv: &[(Vec<u8>, Stored)], counted: bool, r: &mut Rng) -> Option<Box<MNode>> {
    if kv.is_empty() { return None; }
    let m = if kv.len() % 2 == 0 && r.coin() { kv.len() / 2 - 1 } else { kv.len() / 2 };
    let (l, rr) = (build(&kv[..m], counted, r), build(&kv[m + 1..], counted, r));
    join(kv, m, l, rr, counted, r)
}
fn spine(kv: &[(Vec<u8>, Stored)], counted: bool, r: &mut Rng, way: u64) -> Option<Box<MNode>> {
    if kv.len() < 4 { return build(kv, counted, r); }
    let m = if way == 0 || way == 2 && r.coin() { 1 } else { kv.len() - 2 };
    let (l, rr) = (spine(&kv[..m], counted, r, way), spine(&kv[m + 1..], counted, r, way));
    join(kv, m, l, rr, counted, r)
}
fn join(kv: &[(Vec<u8>, Stored)], m: usize, l: Option<Box<MNode>>, rr: Option<Box<MNode>>, counted: bool, r: &mut Rng) -> Option<Box<MNode>> {
    let h = |n: &Option<Box<MNode>>| n.as_ref().map_or(ZERO, |n| n.hash);
    let (key, st) = kv[m].clone();
    let kvh = hkv(&key, &st.hash());
    let count = kv.len() as u64;
    let hash = if counted { hnodec(&kvh, &h(&l), &h(&rr), count) } else { hnode(&kvh, &h(&l), &h(&rr)) };
    let ft = if counted { if r.coin() { TreeFeatureType::ProvableCountedMerkNode(count) } else { TreeFeatureType::ProvableCountedSummedMerkNode(count, r.edge() as i64) } } else { TreeFeatureType::BasicMerkNode };
    Some(Box::new(MNode { key, st, l, r: rr, count, ft, hash }))
}

/// every way to describe one node that keeps the hash of the tree, where the honest ways come first
pub fn faces(n: &MNode, counted: bool, lie: &[u8], r: &mut Rng) -> Vec<Node> {
    let vh = n.st.hash();
    let k = n.key.clone();
    let kvh = hkv(&k, &vh);
    let mut o = vec![];
    if counted {
        match &n.st {
            Stored::Item(v) => o.push(Node::KVCount(k.clone(), v.clone(), n.count)),
            Stored::Layer(v, _) => o.push(Node::KVValueHashFeatureType(k.clone(), v.clone(), vh, n.ft.clone())),
            Stored::Ref(v, to) => o.push(Node::KVRefValueHashCount(k.clone(), to.clone(), hv(v), n.count)),
        }
        o.push(Node::KVDigestCount(k.clone(), vh, n.count));
        o.push(Node::KVHashCount(kvh, n.count));
    } else {
        match &n.st {
            Stored::Item(v) => o.push(Node::KV(k.clone(), v.clone())),
            Stored::Layer(v, _) => o.push(Node::KVValueHash(k.clone(), v.clone(), vh)),
            Stored::Ref(v, to) => o.push(Node::KVRefValueHash(k.clone(), to.clone(), hv(v))),
        }
        o.push(Node::KVDigest(k.clone(), vh));
        o.push(Node::KVHash(kvh));
        for b in [n.st.bytes().clone(), lie.to_vec()] { o.push(Node::KVValueHash(k.clone(), b, vh)); }
    }
    let fts = if counted { vec![TreeFeatureType::ProvableCountedMerkNode(n.count), TreeFeatureType::ProvableCountedSummedMerkNode(n.count, r.edge() as i64)] }
        else { vec![TreeFeatureType::BasicMerkNode, TreeFeatureType::SummedMerkNode(r.edge() as i64), TreeFeatureType::CountedMerkNode(r.edge()), TreeFeatureType::CountedSummedMerkNode(1, 2), TreeFeatureType::BigSummedMerkNode(5)] };
    let ft = r.pick(&fts).clone();
    for b in [n.st.bytes().clone(), lie.to_vec()] {
        o.push(Node::KVValueHashFeatureType(k.clone(), b.clone(), vh, ft.clone()));
        let low = match &n.st { Stored::Layer(_, low) => *low, Stored::Ref(_, to) => hv(to), _ => ZERO };
        o.push(Node::KVValueHashFeatureTypeWithChildHash(k.clone(), b, vh, ft.clone(), low));
    }
    o
}
pub fn key_of(n: &Node) -> Option<&Vec<u8>> {
    match n {
        Node::KV(k, _) | Node::KVValueHash(k, ..) | Node::KVRefValueHash(k, ..) | Node::KVValueHashFeatureType(k, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(k, ..) | Node::KVDigest(k, ..) | Node::KVDigestCount(k, ..) | Node::KVCount(k, ..) | Node::KVRefValueHashCount(k, ..) => Some(k),
        Node::Hash(_) | Node::KVHash(_) | Node::KVHashCount(..) => None,
    }
}
pub fn value_of(n: &Node) -> Option<&Vec<u8>> {
    match n {
        Node::KV(_, v) | Node::KVValueHash(_, v, _) | Node::KVRefValueHash(_, v, _) | Node::KVValueHashFeatureType(_, v, ..)
        | Node::KVValueHashFeatureTypeWithChildHash(_, v, ..) | Node::KVCount(_, v, _) | Node::KVRefValueHashCount(_, v, ..) => Some(v),
        _ => None,
    }
}
/// describe a tree: `face` says how to show a node, None prunes the subtree to its hash
pub fn describe(t: &MTree, l2r: bool, r: &mut Rng, face: &mut dyn FnMut(&MNode, &mut Rng) -> Option<Node>) -> Vec<Op> {
    let mut o = vec![];
    emit(&t.root, l2r, r, face, &mut o);
    o
}
fn emit(n: &Option<Box<MNode>>, l2r: bool, r: &mut Rng, face: &mut dyn FnMut(&MNode, &mut Rng) -> Option<Node>, o: &mut Vec<Op>) {
    let Some(n) = n else { return };
    let push = |x: Node| if l2r { Op::Push(x) } else { Op::PushInverted(x) };
    let (par, chi) = if l2r { (Op::Parent, Op::Child) } else { (Op::ParentInverted, Op::ChildInverted) };
    let Some(f) = face(n, r) else { o.push(push(Node::Hash(n.hash))); return };
    let (first, second) = if l2r { (&n.l, &n.r) } else { (&n.r, &n.l) };
    emit(first, l2r, r, face, o);
    o.push(push(f));
    let late = first.is_some() && second.is_some() && r.chance(1, 4);
    if first.is_some() && !late { o.push(par.clone()); }
    if second.is_some() { emit(second, l2r, r, face, o); o.push(chi); }
    if late { o.push(par); }
}

/// the tree an operation list describes, by the documented meaning of the operations, and its hash without collapsing
#[derive(Clone, Debug)]
pub struct Built { pub node: Node, pub l: Option<Box<Built>>, pub r: Option<Box<Built>> }
impl Built {
    pub fn height(&self) -> usize { 1 + self.l.as_ref().map_or(0, |x| x.height()).max(self.r.as_ref().map_or(0, |x| x.height())) }
    pub fn hash(&self) -> H {
        let (l, r) = (self.l.as_ref().map_or(ZERO, |x| x.hash()), self.r.as_ref().map_or(ZERO, |x| x.hash()));
        let ft = |kv: H, ft: &TreeFeatureType| match ft { TreeFeatureType::ProvableCountedMerkNode(c) | TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => hnodec(&kv, &l, &r, *c), _ => hnode(&kv, &l, &r) };
        match &self.node {
            Node::Hash(h) => *h,
            Node::KVHash(h) => hnode(h, &l, &r),
            Node::KV(k, v) => hnode(&hkv(k, &hv(v)), &l, &r),
            Node::KVValueHash(k, _, h) | Node::KVDigest(k, h) => hnode(&hkv(k, h), &l, &r),
            Node::KVRefValueHash(k, v, h) => hnode(&hkv(k, &hcomb(h, &hv(v))), &l, &r),
            Node::KVValueHashFeatureType(k, _, h, f) | Node::KVValueHashFeatureTypeWithChildHash(k, _, h, f, _) => ft(hkv(k, h), f),
            Node::KVDigestCount(k, h, c) => hnodec(&hkv(k, h), &l, &r, *c),
            Node::KVCount(k, v, c) => hnodec(&hkv(k, &hv(v)), &l, &r, *c),
            Node::KVHashCount(h, c) => hnodec(h, &l, &r, *c),
            Node::KVRefValueHashCount(k, v, h, c) => hnodec(&hkv(k, &hcomb(h, &hv(v))), &l, &r, *c),
        }
    }
    pub fn inorder<'a>(&'a self, o: &mut Vec<&'a Node>) { if let Some(l) = &self.l { l.inorder(o); } o.push(&self.node); if let Some(r) = &self.r { r.inorder(o); } }
}
pub struct Shape { pub tree: Built, pub hash_parent: bool, pub mixed: bool, pub high: bool }
/// Err: the list is not a well-formed description of one tree
pub fn interpret(ops: &[Op]) -> Result<Shape, &'static str> {
    let mut st: Vec<(Built, usize)> = vec![];
    let (mut hash_parent, mut high) = (false, false);
    let mut dirs = [false; 2];
    for op in ops {
        let inv = matches!(op, Op::PushInverted(_) | Op::ParentInverted | Op::ChildInverted);
        dirs[inv as usize] = true;
        match op {
            Op::Push(n) | Op::PushInverted(n) => st.push((Built { node: n.clone(), l: None, r: None }, 1)),
            _ => {
                let top = st.pop().ok_or("underflow")?;
                let below = st.pop().ok_or("underflow")?;
                let (mut p, c, left) = match op { Op::Parent => (top, below, true), Op::ParentInverted => (top, below, false), Op::Child => (below, top, false), _ => (below, top, true) };
                if matches!(p.0.node, Node::Hash(_)) && !matches!(c.0.node, Node::Hash(_)) { hash_parent = true; }
                p.1 = p.1.max(c.1 + 1);
                if p.1 > 92 { high = true; }
                let slot = if left { &mut p.0.l } else { &mut p.0.r };
                if slot.is_some() { return Err("a side is attached twice"); }
                *slot = Some(Box::new(c.0));
                st.push(p);
            }
        }
    }
    if st.len() != 1 { return Err("not exactly one tree"); }
    Ok(Shape { tree: st.pop().unwrap().0, hash_parent, mixed: dirs[0] && dirs[1], high })
}
