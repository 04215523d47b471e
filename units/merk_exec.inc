// ---- trusted: the hash function, variable-length integers -----------------------
#[verifier::external_body] pub struct Hasher { x: u8 }
impl View for Hasher { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Hasher {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn update32(&mut self, b: &H) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn update_vi(&mut self, n: usize) ensures final(self)@ == old(self)@ + vi(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn update_be8(&mut self, n: u64) ensures final(self)@ == old(self)@ + be8(n) { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&self) -> (r: H) ensures r == blake(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn zero_hash() -> (r: H) ensures r == zero() { unimplemented!() }
#[verifier::external_body] pub fn vle(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == kle(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn copy_vec(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn get_or_insert(o: &mut Option<bool>, b: bool) -> (r: bool) ensures r == (match *old(o) { Some(x) => x, None => b }), *final(o) == Some(r) { match *o { Some(x) => x, None => { *o = Some(b); b } } }
// the operations, each decoded or refused, in the order they come
#[verifier::external_body] pub struct Ops { x: u8 }
impl View for Ops { type V = Seq<Result<Op, Error>>; uninterp spec fn view(&self) -> Seq<Result<Op, Error>>; }
impl Ops {
    #[verifier::external_body] pub fn at_end(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Result<Op, Error>) requires old(self)@.len() > 0 ensures r == old(self)@[0], final(self)@ == old(self)@.drop_first() { unimplemented!() }
}
pub open spec fn all_ok(s: Seq<Result<Op, Error>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn oks(s: Seq<Result<Op, Error>>) -> Seq<Op> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
// the visitor: it sees one node after the other and may refuse
pub trait Visitor {
    type K;
    spec fn k(&self) -> Self::K;
    spec fn seen(&self) -> Seq<Node>;
    spec fn inv(&self) -> bool;
    fn visit(&mut self, n: &Node) -> (r: Result<(), Error>) requires old(self).inv() ensures r is Ok ==> final(self).inv() && final(self).seen() == old(self).seen().push(*n) && final(self).k() == old(self).k();
}
//@ rules
Error::$v($x..) ==> err()
.wrap_with_cost(cost) ==>
.wrap_with_cost(Default::default()) ==>
.unwrap_add_cost(&mut cost) ==>
let mut cost = OperationCost::default(); ==>
cost_return_on_error_no_add!(cost, $e..) ==> ($e)?
cost_return_on_error!(&mut cost, $e..) ==> ($e)?
//@ end
// ---- the hash functions: merk/src/tree/hash.rs ------------------------------------
//@ rules
let mut $b = [0u8; 10]; let $n = value.len().encode_var(&mut $c); hasher.update(&$d[..$m]); ==> hasher.update_vi(value.len());
let mut $b = [0u8; 10]; let $n = key.len().encode_var(&mut $c); hasher.update(&$d[..$m]); ==> hasher.update_vi(key.len());
blake3::Hasher::new() ==> Hasher::new()
hasher.update(value_hash.as_slice()) ==> hasher.update32(value_hash)
hasher.update(value_hash.unwrap_add_cost(&mut cost).as_slice()) ==> hasher.update32(&value_hash)
hasher.update(kv) ==> hasher.update32(kv)
hasher.update(left) ==> hasher.update32(left)
hasher.update(right) ==> hasher.update32(right)
hasher.update(hash_one) ==> hasher.update32(hash_one)
hasher.update(hash_two) ==> hasher.update32(hash_two)
hasher.update(&count.to_be_bytes()) ==> hasher.update_be8(count)
let hashes = $x..; ==>
let mut hash: CryptoHash = Default::default(); hash.copy_from_slice(res.as_bytes()); ==> let hash: CryptoHash = res;
cost.hash_node_calls += hashes as u32; ==>
hash.wrap_with_cost($x..) ==> hash
//@ end
//@ fn merk/src/tree/hash.rs value_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == hv(value@)
//@ at start
    proof { assert(Seq::<u8>::empty() + vi(value@.len() as int) =~= vi(value@.len() as int)); }
//@ end
//@ fn merk/src/tree/hash.rs kv_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ rulefirst hasher.update(value_hash.unwrap_add_cost(&mut cost).as_slice()) ==> hasher.update32(&value_hash)
//@ spec
    ensures r == hkv(key@, hv(value@))
//@ at start
    proof { assert(Seq::<u8>::empty() + vi(key@.len() as int) =~= vi(key@.len() as int)); }
//@ end
//@ fn merk/src/tree/hash.rs kv_digest_to_kv_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == hkv(key@, *value_hash)
//@ at start
    proof { assert(Seq::<u8>::empty() + vi(key@.len() as int) =~= vi(key@.len() as int)); }
//@ end
//@ fn merk/src/tree/hash.rs node_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == hn(*kv, *left, *right)
//@ at start
    proof { assert(Seq::<u8>::empty() + kv@ =~= kv@); }
//@ end
//@ fn merk/src/tree/hash.rs combine_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == comb(*hash_one, *hash_two)
//@ at start
    proof { assert(Seq::<u8>::empty() + hash_one@ =~= hash_one@); }
//@ end
//@ fn merk/src/tree/hash.rs node_hash_with_count
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == hnc(*kv, *left, *right, count)
//@ at start
    proof { assert(Seq::<u8>::empty() + kv@ =~= kv@); }
//@ end
// ---- the tree ------------------------------------------------------------------------
//@ const merk/src/proofs/tree.rs MAX_PROOF_OPS
//@ const merk/src/proofs/tree.rs MAX_PROOF_STACK_DEPTH
//@ const merk/src/proofs/tree.rs MAX_PROOF_TREE_HEIGHT
//@ type merk/src/proofs/tree.rs Child
//@ type merk/src/proofs/tree.rs Tree
pub open spec fn ch(c: Option<Child>) -> H { match c { Some(c) => c.hash, None => zero() } }
pub open spec fn xh(t: Tree) -> H { node_hash_of(t.node, ch(t.left), ch(t.right)) }
// t stands for s: same node, children with the right hashes
pub open spec fn stands(t: Tree, s: ST) -> bool {
    match s { ST::Nil => false, ST::Node(n, l, r) => t.node == n && ch(t.left) == sh(*l) && ch(t.right) == sh(*r) && (t.left is None <==> *l is Nil) && (t.right is None <==> *r is Nil) && 1 <= t.height <= MAX_PROOF_TREE_HEIGHT && t.child_heights.0 < t.height && t.child_heights.1 < t.height }
}
// t is s: the whole tree, with exact heights
pub open spec fn is_same(t: Tree, s: ST) -> bool decreases s {
    match s { ST::Nil => false, ST::Node(n, l, r) => stands(t, s) && t.height == ht(s) && t.child_heights.0 == ht(*l) && t.child_heights.1 == ht(*r) && (t.left is Some ==> is_same(*t.left->0.tree, *l)) && (t.right is Some ==> is_same(*t.right->0.tree, *r)) }
}
pub open spec fn of(t: Tree, s: ST, collapse: bool) -> bool { stands(t, s) && (!collapse ==> is_same(t, s)) }
pub proof fn lemma_stands(t: Tree, s: ST) requires stands(t, s) ensures xh(t) == sh(s), !(s is Nil) {}
pub proof fn lemma_ht(s: ST) ensures ht(s) >= 0, ht(s) == 0 <==> s is Nil decreases s { match s { ST::Nil => {}, ST::Node(n, l, r) => { lemma_ht(*l); lemma_ht(*r); } } }
//@ fn merk/src/proofs/tree.rs Tree::hash > compute_hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ spec
    ensures r == hn(kv_hash, ch(tree.left), ch(tree.right))
//@ end
impl Tree {
//@ fn merk/src/proofs/tree.rs From<Node> for Tree::from
//@ as from_node
//@ ret r
//@ vis pub
//@ spec
    ensures r.node == node, is_same(r, leaf(node)), stands(r, leaf(node))
//@ at start
    proof { reveal_with_fuel(is_same, 2); reveal_with_fuel(sh, 2); reveal_with_fuel(ht, 3); }
//@ end
//@ fn merk/src/proofs/tree.rs Tree::hash
//@ ret r
//@ sig CostContext<CryptoHash> ==> CryptoHash
//@ rulefirst fn compute_hash($a..) -> CostContext<CryptoHash> { $b.. } ==>
//@ rule $f(key.as_slice(), value.as_slice()).flat_map(|kv_hash| $e..) ==> { let kv_hash = $f(key.as_slice(), value.as_slice()); $e }
//@ rule $f(key.as_slice(), $h).flat_map(|kv_hash| $e..) ==> { let kv_hash = $f(key.as_slice(), $h); $e }
//@ rule $f(key.as_slice(), &$h).flat_map(|kv_hash| $e..) ==> { let kv_hash = $f(key.as_slice(), &$h); $e }
//@ rule $f(key, value_hash).flat_map(|kv_hash| $e..) ==> { let kv_hash = $f(key.as_slice(), value_hash); $e }
//@ spec
    ensures r == xh(*self)
//@ end
//@ fn merk/src/proofs/tree.rs Tree::child
//@ ret r
//@ sig const fn ==> fn
//@ spec
    ensures (if left { self.left } else { self.right }) == (match r { Some(c) => Some(*c), None => None::<Child> })
//@ end
//@ fn merk/src/proofs/tree.rs Tree::child_mut
//@ ret r
//@ spec
    ensures *r == (if left { old(self).left } else { old(self).right }), final(self).left == (if left { *final(r) } else { old(self).left }), final(self).right == (if left { old(self).right } else { *final(r) }),
        final(self).node == old(self).node, final(self).height == old(self).height, final(self).child_heights == old(self).child_heights
//@ end
//@ fn merk/src/proofs/tree.rs Tree::child_hash
//@ ret r
//@ sig const fn ==> fn
//@ rule NULL_HASH ==> zero_hash()
//@ spec
    ensures r == ch(if left { self.left } else { self.right })
//@ end
//@ fn merk/src/proofs/tree.rs Tree::into_hash
//@ ret r
//@ sig CostContext<Self> ==> Self
//@ rule self.hash().map(|hash| Node::Hash(hash).into()) ==> { let hash = self.hash(); Tree::from_node(Node::Hash(hash)) }
//@ spec
    ensures r.node == Node::Hash(xh(self)), stands(r, leaf(r.node)), r.height == 1
//@ end
//@ fn merk/src/proofs/tree.rs Tree::key
//@ ret r
//@ spec
    ensures (match r { Some(k) => Some(k@), None => None }) == node_key(self.node)
//@ end
//@ fn merk/src/proofs/tree.rs Tree::attach
//@ ret r
//@ sig CostResult<(), Error> ==> Result<(), Error>
//@ rule self.height.max(child.height + 1) ==> max(self.height, child.height + 1)
//@ spec
    requires child.height <= MAX_PROOF_TREE_HEIGHT, old(self).height <= MAX_PROOF_TREE_HEIGHT
    ensures r is Err <==> (if left { old(self).left is Some } else { old(self).right is Some }) || child.height + 1 > MAX_PROOF_TREE_HEIGHT,
        r is Ok ==> final(self).node == old(self).node && final(self).height == (if old(self).height >= child.height + 1 { old(self).height as int } else { child.height + 1 })
            && (if left { final(self).left == Some(Child { tree: Box::new(child), hash: xh(child) }) && final(self).right == old(self).right && final(self).child_heights == (child.height, old(self).child_heights.1) }
                else { final(self).right == Some(Child { tree: Box::new(child), hash: xh(child) }) && final(self).left == old(self).left && final(self).child_heights == (old(self).child_heights.0, child.height) })
//@ end
}

// ---- what a run says ---------------------------------------------------------------
pub open spec fn flat(st: Seq<ST>, inv: bool) -> Seq<Node> decreases st.len() { if st.len() == 0 { seq![] } else { flat(st.drop_last(), inv) + ino(st.last(), inv) } }
pub proof fn lemma_flat2(st: Seq<ST>, inv: bool)
    requires st.len() >= 2
    ensures flat(st, inv) == flat(st.take(st.len() - 2), inv) + ino(st[st.len() - 2], inv) + ino(st[st.len() - 1], inv)
{ reveal_with_fuel(flat, 3); assert(st.drop_last().drop_last() =~= st.take(st.len() - 2)); assert(st.drop_last().last() == st[st.len() - 2]); }
pub proof fn lemma_attached(p: ST, left: bool, c: ST, inv: bool)
    requires attached(p, left, c) is Some
    ensures ino(attached(p, left, c)->0, inv) == (if left != inv { ino(c, inv) + ino(p, inv) } else { ino(p, inv) + ino(c, inv) }), tight(p) && tight(c) ==> tight(attached(p, left, c)->0),
        !(attached(p, left, c)->0 is Nil)
{
    match p { ST::Nil => {}, ST::Node(n, l, r) => {
        let t = attached(p, left, c)->0; reveal_with_fuel(ino, 3);
        if left != inv { assert(ino(t, inv) =~= ino(c, inv) + ino(p, inv)); } else { assert(ino(t, inv) =~= ino(p, inv) + ino(c, inv)); }
    } }
}
// every pushed node is visited in the order of the tree that is built
pub proof fn lemma_run(ops: Seq<Op>, inv: bool)
    requires run(ops) is Some, one_way(ops, inv)
    ensures flat(run(ops)->0, inv) == pushes(ops), forall|i: int| 0 <= i < run(ops)->0.len() ==> tight(#[trigger] run(ops)->0[i])
    decreases ops.len()
{
    if ops.len() > 0 {
        let a = ops.drop_last(); let o = ops.last();
        assert(one_way(a, inv)) by { assert forall|i: int| 0 <= i < a.len() implies is_inv(#[trigger] a[i]) == inv by { assert(a[i] == ops[i]); } }
        assert(is_inv(ops[ops.len() - 1]) == inv);
        lemma_run(a, inv);
        let st = run(a)->0; let fin = run(ops)->0; let n = st.len() as int;
        if is_push(o) {
            assert(fin.drop_last() =~= st);
            let x = leaf(pushed(o));
            assert(ino(x, inv) =~= seq![pushed(o)]) by { reveal_with_fuel(ino, 3); }
            assert(tight(x)) by { reveal_with_fuel(tight, 3); }
            assert(flat(fin, inv) =~= pushes(ops));
        } else {
            lemma_flat2(st, inv);
            let (p, left, c) = match o { Op::Parent => (st[n - 1], true, st[n - 2]), Op::ParentInverted => (st[n - 1], false, st[n - 2]), Op::Child => (st[n - 2], false, st[n - 1]), _ => (st[n - 2], true, st[n - 1]) };
            lemma_attached(p, left, c, inv);
            assert(fin.drop_last() =~= st.take(n - 2));
            assert(flat(fin, inv) =~= pushes(ops));
        }
    }
}
pub open spec fn last_key(log: Seq<Node>) -> Option<Seq<u8>> decreases log.len() { if log.len() == 0 { None } else if node_key(log.last()) is Some { node_key(log.last()) } else { last_key(log.drop_last()) } }
pub proof fn lemma_last_key(log: Seq<Node>, inv: bool)
    requires in_order(log, inv)
    ensures last_key(log) is None ==> forall|i: int| 0 <= i < log.len() ==> node_key(#[trigger] log[i]) is None,
        last_key(log) is Some ==> forall|i: int| 0 <= i < log.len() && node_key(#[trigger] log[i]) is Some ==> node_key(log[i])->0 == last_key(log)->0 || before(node_key(log[i])->0, last_key(log)->0, inv)
    decreases log.len()
{
    if log.len() > 0 {
        let d = log.drop_last();
        assert(in_order(d, inv)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() && node_key(#[trigger] d[i]) is Some && node_key(#[trigger] d[j]) is Some implies before(node_key(d[i])->0, node_key(d[j])->0, inv) by { assert(d[i] == log[i] && d[j] == log[j]); } }
        lemma_last_key(d, inv);
        assert forall|i: int| 0 <= i < log.len() && node_key(#[trigger] log[i]) is Some implies last_key(log) is Some && (node_key(log[i])->0 == last_key(log)->0 || before(node_key(log[i])->0, last_key(log)->0, inv)) by {
            if i < d.len() { assert(d[i] == log[i]); assert(log[log.len() - 1] == log.last()); } else { assert(log[i] == log.last()); }
        }
    }
}
pub proof fn lemma_push_key(log: Seq<Node>, n: Node, inv: bool)
    requires in_order(log, inv), node_key(n) is Some ==> last_key(log) is None || before(last_key(log)->0, node_key(n)->0, inv)
    ensures in_order(log.push(n), inv)
{
    lemma_last_key(log, inv); order();
    let d = log.push(n);
    assert forall|i: int, j: int| 0 <= i < j < d.len() && node_key(#[trigger] d[i]) is Some && node_key(#[trigger] d[j]) is Some implies before(node_key(d[i])->0, node_key(d[j])->0, inv) by {
        assert(d[i] == log[i]);
        if j < log.len() { assert(d[j] == log[j]); }
    }
}
// one attach step on the stack keeps every entry standing for its tree
pub open spec fn roles(n: int, o: Op) -> (int, bool, int) { match o { Op::Parent => (n - 1, true, n - 2), Op::ParentInverted => (n - 1, false, n - 2), Op::Child => (n - 2, false, n - 1), _ => (n - 2, true, n - 1) } }
pub proof fn lemma_step_of(st0: Seq<Tree>, sts: Seq<ST>, o: Op, st1: Seq<Tree>, collapse: bool)
    requires !is_push(o), st0.len() == sts.len() >= 2, forall|i: int| 0 <= i < sts.len() ==> of(#[trigger] st0[i], sts[i], collapse),
        st1.len() == st0.len() - 1, forall|i: int| 0 <= i < st0.len() - 2 ==> st1[i] == st0[i],
        ({ let (ip, left, ic) = roles(st0.len() as int, o); let p = st0[ip]; let c = st0[ic]; let q = st1.last();
           q.node == p.node && !(bare(p.node) && !bare(c.node)) && 1 <= q.height <= MAX_PROOF_TREE_HEIGHT
           && (if left { p.left is None && q.right == p.right && q.left is Some && q.child_heights.1 == p.child_heights.1 } else { p.right is None && q.left == p.left && q.right is Some && q.child_heights.0 == p.child_heights.0 })
           && ({ let k = if left { q.left->0 } else { q.right->0 }; let h = if left { q.child_heights.0 } else { q.child_heights.1 };
                 k.hash == xh(c) && (!collapse ==> *k.tree == c) && h == (*k.tree).height && q.height == (if p.height >= h + 1 { p.height as int } else { h + 1 }) }) })
    ensures step(sts, o) is Some, step(sts, o)->0.len() == st1.len(), forall|i: int| 0 <= i < st1.len() ==> of(#[trigger] st1[i], step(sts, o)->0[i], collapse)
{
    let n = st0.len() as int; let (ip, left, ic) = roles(n, o);
    let p = st0[ip]; let c = st0[ic]; let sp = sts[ip]; let sc = sts[ic]; let q = st1.last();
    assert(of(p, sp, collapse) && of(c, sc, collapse));
    lemma_stands(p, sp); lemma_stands(c, sc); lemma_ht(sc); lemma_ht(sp);
    match sp { ST::Nil => {}, ST::Node(nn, l, r) => { lemma_ht(*l); lemma_ht(*r); } }
    assert(bare(c.node) == bare_or_nil(sc));
    assert(attached(sp, left, sc) is Some);
    let a = attached(sp, left, sc)->0;
    assert(stands(q, a));
    if !collapse { assert(is_same(q, a)); }
    assert(of(q, a, collapse));
    let fin = step(sts, o)->0;
    assert(fin =~= sts.take(n - 2).push(a));
    assert forall|i: int| 0 <= i < st1.len() implies of(#[trigger] st1[i], fin[i], collapse) by { if i < n - 2 { assert(st1[i] == st0[i]); assert(fin[i] == sts[i]); } }
}
pub open spec fn dir(ops: Seq<Op>) -> bool { ops.len() > 0 && is_inv(ops[0]) }
// what an accepted operation list is
pub open spec fn accepted(ops: Seq<Op>, s: ST) -> bool {
    run(ops) == Some(seq![s]) && one_way(ops, dir(ops)) && in_order(pushes(ops), dir(ops)) && pushes(ops) == ino(s, dir(ops)) && tight(s) && ops.len() <= MAX_PROOF_OPS
}
//@ fn merk/src/proofs/tree.rs op_is_inverted
//@ ret r
//@ vis pub
//@ spec
    ensures r == is_inv(*op)
//@ end
//@ fn merk/src/proofs/tree.rs execute > try_pop
//@ ret r
//@ rule stack.pop().ok_or_else(|| $e..) ==> match stack.pop() { Some(x) => Ok(x), None => Err($e) }
//@ spec
    ensures r is Ok <==> old(stack)@.len() > 0, r is Ok ==> r->Ok_0 == old(stack)@.last() && final(stack)@ == old(stack)@.drop_last()
//@ end
//@ fn merk/src/proofs/tree.rs execute > check_child_is_hashed
//@ ret r
//@ spec
    ensures r is Ok <==> !(bare(parent.node) && !bare(child.node))
//@ end
//@ fn merk/src/proofs/tree.rs execute
//@ ret r
//@ sig <I, F>(ops: I, collapse: bool, mut visit_node: F) -> CostResult<Tree, Error> where I: IntoIterator<Item = Result<Op, Error>>, F: FnMut(&Node) -> Result<(), Error>, ==> <V: Visitor>(ops: &mut Ops, collapse: bool, vis: &mut V) -> Result<Tree, Error>
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst fn try_pop($a..) -> $r<Tree, Error> { $b.. } ==>
//@ rulefirst fn check_child_is_hashed($a..) -> $r<(), Error> { $b.. } ==>
//@ rule for op in ops { $b.. } ==> while !ops.at_end() { let op = ops.next(); $b }
//@ rule *maybe_inverted.get_or_insert(inverted) != inverted ==> get_or_insert(&mut maybe_inverted, inverted) != inverted
//@ rule if let Some(last_key) = &maybe_last_key && key <= last_key { $b.. } ==> if let Some(last_key) = &maybe_last_key { if vle(key, last_key) { $b } }
//@ rule if let Some(last_key) = &maybe_last_key && key >= last_key { $b.. } ==> if let Some(last_key) = &maybe_last_key { if vle(last_key, key) { $b } }
//@ rule let mut maybe_last_key = None; ==> let mut maybe_last_key: Option<Vec<u8>> = None;
//@ rule let mut maybe_inverted = None; ==> let mut maybe_inverted: Option<bool> = None;
//@ rule key.clone() ==> copy_vec(key)
//@ rule visit_node(&node) ==> vis.visit(&node)
//@ rule node.into() ==> Tree::from_node(node)
//@ rule tree.child_heights.0.max(tree.child_heights.1) - tree.child_heights.0.min(tree.child_heights.1) ==> max(tree.child_heights.0, tree.child_heights.1) - min(tree.child_heights.0, tree.child_heights.1)
//@ rule stack.pop().unwrap() ==> match stack.pop() { Some(x) => x, None => { proof { assert(false); } return Err(err()); } }
//@ spec
    requires old(vis).inv()
    ensures r is Ok ==> all_ok(old(ops)@) && final(vis).inv() && final(vis).k() == old(vis).k() && ({
        let g = oks(old(ops)@); let s = run(g)->0[0];
        accepted(g, s) && final(vis).seen() == old(vis).seen() + pushes(g) && of(r->Ok_0, s, collapse) && xh(r->Ok_0) == sh(s) && (!collapse ==> bal(s)) && final(ops)@.len() == 0
    })
//@ at start
    let ghost ops0 = ops@; let ghost k_0 = vis.k(); let ghost seen0 = vis.seen(); let ghost mut g: Seq<Op> = seq![]; let ghost mut sts: Seq<ST> = seq![];
    proof { assert(ops0.take(0) =~= seq![]); assert(ops0.skip(0) =~= ops0); assert(seen0 + pushes(g) =~= seen0); assert(oks(ops0.take(0)) =~= g); }
//@ loop 1
    invariant op_count <= MAX_PROOF_OPS, op_count <= ops0.len(), ops@ == ops0.skip(op_count as int), all_ok(ops0.take(op_count as int)), g == oks(ops0.take(op_count as int)),
        run(g) == Some(sts), stack@.len() == sts.len(), forall|i: int| 0 <= i < sts.len() ==> of(#[trigger] stack@[i], sts[i], collapse),
        vis.inv(), vis.k() == k_0, vis.seen() == seen0 + pushes(g), in_order(pushes(g), dir(g)), one_way(g, dir(g)),
        maybe_inverted == (if g.len() == 0 { None } else { Some(dir(g)) }),
        (match maybe_last_key { Some(k) => Some(k@), None => None }) == last_key(pushes(g)),
    decreases ops@.len()
//@ loopstart 1
    let ghost stack0 = stack@; let ghost seen1 = vis.seen(); let ghost k0 = op_count as int;
//@ after let op = (op)?;
    let ghost o = op; let ghost g1 = g.push(o);
    proof {
        assert(ops0.skip(k0)[0] == ops0[k0]);
        assert(ops0.take(k0 + 1) =~= ops0.take(k0).push(ops0[k0]));
        assert(oks(ops0.take(k0 + 1)) =~= g1);
        assert(ops0.skip(k0).drop_first() =~= ops0.skip(k0 + 1));
        assert(g1.drop_last() =~= g);
        if g.len() > 0 { assert(g1[0] == g[0]); }
    }
//@ before match op {
    proof {
        assert forall|i: int| 0 <= i < g1.len() implies is_inv(#[trigger] g1[i]) == dir(g1) by { if i < g.len() { assert(g1[i] == g[i]); assert(g1[0] == g[0]); } else { assert(g1[i] == o); } }
    }
//@ after #all stack.push(parent);
    proof { lemma_step_of(stack0, sts, o, stack@, collapse); }
//@ after #all maybe_last_key = Some(copy_vec(key));
    proof { order(); klt_tot(key@, key@); }
//@ after #all stack.push(tree);
    proof { assert(sts.push(leaf(node0)) =~= step(sts, o)->0); lemma_push_key(pushes(g), node0, dir(g1)); assert(pushes(g1) =~= pushes(g).push(node0)); assert(seen1.push(node0) =~= seen0 + pushes(g1)); assert(pushes(g1).drop_last() =~= pushes(g)); }
//@ before #all let tree: Tree =
    let ghost node0 = node;
//@ loopend 1
    proof { g = g1; sts = step(sts, o)->0; }
//@ before if max(tree.child_heights.0
    proof { assert(ops0.take(op_count as int) =~= ops0); assert(sts =~= seq![sts[0]]); lemma_run(g, dir(g)); assert(flat(sts, dir(g)) =~= ino(sts[0], dir(g))) by { reveal_with_fuel(flat, 3); assert(sts.drop_last() =~= Seq::<ST>::empty()); assert(sts.last() == sts[0]); } assert(of(tree, sts[0], collapse)); lemma_stands(tree, sts[0]); }
//@ end
