// ---- proof operations, the trees they describe, and their hashes --------------
pub type H = [u8; 32];
pub type CryptoHash = [u8; 32];
//@ type grovedb-query/src/proofs/tree_feature_type.rs TreeFeatureType
//@ type grovedb-query/src/proofs/mod.rs Node
//@ type grovedb-query/src/proofs/mod.rs Op
pub uninterp spec fn zero() -> H;
// the hash of a byte string, and the variable-length integer in front of keys and values
pub uninterp spec fn blake(b: Seq<u8>) -> H;
pub uninterp spec fn vi(n: int) -> Seq<u8>;
pub uninterp spec fn be8(n: u64) -> Seq<u8>;
pub open spec fn hv(v: Seq<u8>) -> H { blake(vi(v.len() as int) + v) }
pub open spec fn hkv(k: Seq<u8>, h: H) -> H { blake(vi(k.len() as int) + k + h@) }
pub open spec fn hn(kv: H, l: H, r: H) -> H { blake(kv@ + l@ + r@) }
pub open spec fn hnc(kv: H, l: H, r: H, c: u64) -> H { blake(kv@ + l@ + r@ + be8(c)) }
pub open spec fn comb(a: H, b: H) -> H { blake(a@ + b@) }
// the key and the stored hash a node shows
pub open spec fn node_key(n: Node) -> Option<Seq<u8>> {
    match n {
        Node::Hash(_) => None, Node::KVHash(_) => None, Node::KVHashCount(_, _) => None,
        Node::KVDigest(k, _) => Some(k@), Node::KV(k, _) => Some(k@), Node::KVValueHash(k, _, _) => Some(k@), Node::KVValueHashFeatureType(k, _, _, _) => Some(k@),
        Node::KVRefValueHash(k, _, _) => Some(k@), Node::KVCount(k, _, _) => Some(k@), Node::KVRefValueHashCount(k, _, _, _) => Some(k@), Node::KVDigestCount(k, _, _) => Some(k@),
        Node::KVValueHashFeatureTypeWithChildHash(k, _, _, _, _) => Some(k@),
    }
}
pub open spec fn node_vh(n: Node) -> H {
    match n {
        Node::KVDigest(_, h) => h, Node::KV(_, v) => hv(v@), Node::KVValueHash(_, _, h) => h, Node::KVValueHashFeatureType(_, _, h, _) => h,
        Node::KVRefValueHash(_, v, h) => comb(h, hv(v@)), Node::KVCount(_, v, _) => hv(v@), Node::KVRefValueHashCount(_, v, h, _) => comb(h, hv(v@)), Node::KVDigestCount(_, h, _) => h,
        Node::KVValueHashFeatureTypeWithChildHash(_, _, h, _, _) => h, _ => zero(),
    }
}
pub open spec fn ft_count(f: TreeFeatureType) -> Option<u64> { match f { TreeFeatureType::ProvableCountedMerkNode(c) => Some(c), TreeFeatureType::ProvableCountedSummedMerkNode(c, _) => Some(c), _ => None } }
pub open spec fn node_count(n: Node) -> Option<u64> {
    match n {
        Node::KVValueHashFeatureType(_, _, _, f) => ft_count(f), Node::KVValueHashFeatureTypeWithChildHash(_, _, _, f, _) => ft_count(f),
        Node::KVCount(_, _, c) => Some(c), Node::KVHashCount(_, c) => Some(c), Node::KVRefValueHashCount(_, _, _, c) => Some(c), Node::KVDigestCount(_, _, c) => Some(c), _ => None,
    }
}
pub open spec fn node_kvh(n: Node) -> H { match n { Node::KVHash(h) => h, Node::KVHashCount(h, _) => h, _ => hkv(node_key(n)->0, node_vh(n)) } }
pub open spec fn bare(n: Node) -> bool { n is Hash }
pub open spec fn mix(kv: H, l: H, r: H, c: Option<u64>) -> H { match c { Some(c) => hnc(kv, l, r, c), None => hn(kv, l, r) } }
pub open spec fn node_hash_of(n: Node, l: H, r: H) -> H { match n { Node::Hash(h) => h, _ => mix(node_kvh(n), l, r, node_count(n)) } }
// the tree an operation list describes
pub enum ST { Nil, Node(Node, Box<ST>, Box<ST>) }
pub open spec fn leaf(n: Node) -> ST { ST::Node(n, Box::new(ST::Nil), Box::new(ST::Nil)) }
pub open spec fn sh(s: ST) -> H decreases s { match s { ST::Nil => zero(), ST::Node(n, l, r) => node_hash_of(n, sh(*l), sh(*r)) } }
pub open spec fn ht(s: ST) -> int decreases s { match s { ST::Nil => 0, ST::Node(n, l, r) => 1 + if ht(*l) >= ht(*r) { ht(*l) } else { ht(*r) } } }
// its nodes from left to right, or from right to left
pub open spec fn ino(s: ST, inv: bool) -> Seq<Node> decreases s
{ match s { ST::Nil => seq![], ST::Node(n, l, r) => if inv { ino(*r, inv).push(n) + ino(*l, inv) } else { ino(*l, inv).push(n) + ino(*r, inv) } } }
// nothing but bare hashes hangs below a bare hash
pub open spec fn tight(s: ST) -> bool decreases s { match s { ST::Nil => true, ST::Node(n, l, r) => tight(*l) && tight(*r) && (bare(n) ==> bare_or_nil(*l) && bare_or_nil(*r)) } }
pub open spec fn bare_or_nil(s: ST) -> bool { match s { ST::Nil => true, ST::Node(n, _, _) => bare(n) } }
pub open spec fn attached(p: ST, left: bool, c: ST) -> Option<ST> {
    match p { ST::Nil => None, ST::Node(n, l, r) => if bare(n) && !bare_or_nil(c) { None } else if left { if *l is Nil { Some(ST::Node(n, Box::new(c), r)) } else { None } } else { if *r is Nil { Some(ST::Node(n, l, Box::new(c))) } else { None } } }
}
pub open spec fn is_push(o: Op) -> bool { o is Push || o is PushInverted }
pub open spec fn pushed(o: Op) -> Node { match o { Op::Push(n) => n, Op::PushInverted(n) => n, _ => arbitrary() } }
pub open spec fn is_inv(o: Op) -> bool { o is PushInverted || o is ParentInverted || o is ChildInverted }
pub open spec fn step(st: Seq<ST>, o: Op) -> Option<Seq<ST>> {
    let n = st.len() as int;
    if is_push(o) { Some(st.push(leaf(pushed(o)))) }
    else if n < 2 { None }
    else {
        let a = match o { Op::Parent => attached(st[n - 1], true, st[n - 2]), Op::ParentInverted => attached(st[n - 1], false, st[n - 2]), Op::Child => attached(st[n - 2], false, st[n - 1]), _ => attached(st[n - 2], true, st[n - 1]) };
        match a { None => None, Some(t) => Some(st.take(n - 2).push(t)) }
    }
}
pub open spec fn run(ops: Seq<Op>) -> Option<Seq<ST>> decreases ops.len() { if ops.len() == 0 { Some(seq![]) } else { match run(ops.drop_last()) { None => None, Some(st) => step(st, ops.last()) } } }
pub open spec fn pushes(ops: Seq<Op>) -> Seq<Node> decreases ops.len() { if ops.len() == 0 { seq![] } else if is_push(ops.last()) { pushes(ops.drop_last()).push(pushed(ops.last())) } else { pushes(ops.drop_last()) } }
pub open spec fn one_way(ops: Seq<Op>, inv: bool) -> bool { forall|i: int| 0 <= i < ops.len() ==> is_inv(#[trigger] ops[i]) == inv }
// keys strictly ascend (or descend, when inverted)
pub open spec fn before(a: Seq<u8>, b: Seq<u8>, inv: bool) -> bool { if inv { klt(b, a) } else { klt(a, b) } }
pub open spec fn in_order(log: Seq<Node>, inv: bool) -> bool { forall|i: int, j: int| 0 <= i < j < log.len() && node_key(#[trigger] log[i]) is Some && node_key(#[trigger] log[j]) is Some ==> before(node_key(log[i])->0, node_key(log[j])->0, inv) }
// the list describes the tree s
pub open spec fn describes(ops: Seq<Op>, s: ST) -> bool { run(ops) == Some(seq![s]) }
pub open spec fn bal(s: ST) -> bool { match s { ST::Nil => true, ST::Node(_, l, r) => -1 <= ht(*l) - ht(*r) <= 1 } }
