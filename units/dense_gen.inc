pub open spec fn exp(l: Seq<u16>, q: int) -> bool { exists|e: u16| #[trigger] l.contains(e) && anc(q, e as int) }
pub open spec fn par(c: int) -> int { (c - 1) / 2 }
pub open spec fn asc_pos<T>(s: Seq<(u16, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 < s[j].0 }
pub open spec fn frontier(l: Seq<u16>, cap: int, count: int, c: int) -> bool { (0 < c < cap && !exp(l, c) && exp(l, par(c))) || (c == 0 && l.len() == 0 && count > 0) }
pub open spec fn honest(p: DenseTreeProof, vals: Seq<Seq<u8>>, cap: int, l: Seq<u16>) -> bool {
    &&& asc_pos(p.entries@) && asc_pos(p.node_value_hashes@) && asc_pos(p.node_hashes@)
    &&& forall|q: u16| #[trigger] has_pos(p.entries@, q) <==> l.contains(q)
    &&& forall|q: u16| #[trigger] has_pos(p.node_value_hashes@, q) <==> exp(l, q as int) && !l.contains(q)
    &&& forall|q: u16| #[trigger] has_pos(p.node_hashes@, q) <==> frontier(l, cap, vals.len() as int, q as int)
    &&& forall|k: int| 0 <= k < p.entries@.len() ==> (#[trigger] p.entries@[k]).1@ == vals[p.entries@[k].0 as int]
    &&& forall|k: int| 0 <= k < p.node_value_hashes@.len() ==> (#[trigger] p.node_value_hashes@[k]).1 == vh(vals[p.node_value_hashes@[k].0 as int])
    &&& forall|k: int| 0 <= k < p.node_hashes@.len() ==> (#[trigger] p.node_hashes@[k]).1 == th(vals, cap, p.node_hashes@[k].0 as int)
}
impl DenseTreeProof {
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs DenseTreeProof::generate
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::rlimit(200)]
//@ ret r
//@ spec
    requires wf(*tree)
    ensures (exists|k: int| 0 <= k < positions@.len() && #[trigger] positions@[k] >= tree.count) ==> r.is_err(),
        r.is_ok() ==> honest(r->Ok_0, stored(*tree), capacity(tree.height), positions@) && accepts(r->Ok_0, tree.height, tree.count)
            && prec(r->Ok_0, 0, tree.height, tree.count) == Some(th(stored(*tree), capacity(tree.height), 0))
            && forall|p: u16| #[trigger] has_pos(r->Ok_0.entries@, p) <==> positions@.contains(p)
//@ at start
proof { lemma_p2(tree.height as nat, 16); lemma_p2(1, tree.height as nat); }
//@ loop 1
invariant i <= positions@.len(), forall|k: int| 0 <= k < i ==> #[trigger] positions@[k] < count
decreases positions@.len() - i
//@ loop 2
invariant i <= list@.len(),
    forall|q: u16| #[trigger] expanded@.contains(q) <==> proved_set@.contains(q) || anc_to(list@, i as int, q as int)
decreases list@.len() - i
//@ loopstart 2
let ghost base = expanded@; let ghost e = list@[i as int]; proof { assert(list@.contains(e)); assert(proved_set@.contains(e)); assert(base.contains(e)); }
//@ loop 3
invariant anc(p as int, e as int), forall|q: u16| #[trigger] expanded@.contains(q) <==> base.contains(q) || (anc(q as int, e as int) && (q == p || !anc(q as int, p as int)))
decreases p
//@ loopstart 3
let ghost p0 = p as int;
//@ loopend 3
proof { lemma_anc_trans(p as int, p0, e as int);
  assert forall|q: u16| #[trigger] expanded@.contains(q) <==> base.contains(q) || (anc(q as int, e as int) && (q == p || !anc(q as int, p as int))) by {
    if anc(p0, p as int) { lemma_anc_le(p0, p as int); } } }
//@ postloop 2
let ghost l = positions@; let ghost n = count as int; let ghost cap = capacity as int; let ghost vals = stored(*tree);
proof {
  assert forall|e: u16| #[trigger] l.contains(e) implies e < n by { let k = choose|k: int| 0 <= k < l.len() && l[k] == e; }
  assert forall|q: u16| #![trigger expanded@.contains(q)] expanded@.contains(q) <==> exp(l, q as int) by {
    lemma_anc_to(list@, list@.len() as int, q as int);
    if expanded@.contains(q) {
      if proved_set@.contains(q) { assert(l.contains(q) && anc(q as int, q as int)); }
      else { let k = choose|k: int| 0 <= k < list@.len() && anc(q as int, #[trigger] list@[k] as int); assert(list@.contains(list@[k])); assert(l.contains(list@[k])); }
    }
    if exp(l, q as int) {
      let e = choose|e: u16| #[trigger] l.contains(e) && anc(q as int, e as int);
      assert(proved_set@.contains(e)); assert(list@.contains(e)); let k = choose|k: int| 0 <= k < list@.len() && list@[k] == e; assert(anc(q as int, list@[k] as int));
    }
  }
  assert((proved_set@ == Set::<u16>::empty()) == (l.len() == 0)) by { if l.len() > 0 { assert(l.contains(l[0])); assert(proved_set@.contains(l[0])); } else { assert(proved_set@ =~= Set::<u16>::empty()); } }
}
//@ preloop 4
proof {
  assert forall|q: u16| #[trigger] list@.contains(q) <==> exp(l, q as int) by { assert(list@.contains(q) <==> expanded@.contains(q)); }
  lemma_start(l, list@, vals, cap, entries@, node_value_hashes@, node_hashes@);
}
//@ loop 4
invariant i <= list@.len(), listed(l, list@, n),
    inv4(l, list@, i as int, vals, cap, entries@, node_value_hashes@, node_hashes@),
decreases list@.len() - i
//@ loopstart 4
let ghost i0 = i as int; let ghost e0 = entries@; let ghost v0 = node_value_hashes@; let ghost h0 = node_hashes@; let ghost x = list@[i0];
proof { assert(list@.contains(x)); assert(expanded@.contains(x)); reveal(listed); assert(x < n); }
//@ after let right_child_u32
let ghost e1 = entries@; let ghost v1 = node_value_hashes@;
//@ before if right_child_u32 < capacity
let ghost hm = node_hashes@;
proof { let c1 = 2 * x + 1; assert(hm == push_if(h0, c1 < cap && !exp(l, c1), c1 as u16, th(vals, cap, c1))) by { if c1 < cap { assert(expanded@.contains(c1 as u16) <==> exp(l, c1)); } } }
//@ loopend 4
proof {
  let c1 = 2 * x + 1; let c2 = 2 * x + 2;
  assert(node_hashes@ == push_if(hm, c2 < cap && !exp(l, c2), c2 as u16, th(vals, cap, c2))) by { if c2 < cap { assert(expanded@.contains(c2 as u16) <==> exp(l, c2)); } }
  if l.contains(x) { assert(e1 == e0.push((x, e1.last().1))); } else { assert(v1 == v0.push((x, v1.last().1))); }
  lemma_step(l, list@, i0, vals, cap, e0, v0, h0, e1, v1, node_hashes@);
}
//@ postloop 4
proof { reveal(inv4); reveal(listed); }
//@ before Ok(DenseTreeProof
proof { theorem_complete(DenseTreeProof { entries, node_value_hashes, node_hashes }, vals, height, l); }
//@ end
}
impl DenseTreeProof {
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs DenseTreeProof::generate_for_query
//@ ret r
//@ spec
    requires wf(*tree)
    ensures r.is_ok() ==> accepts(r->Ok_0, tree.height, tree.count) && !query.sub && wf_items(query.items@, query.items@.len() as int)
            && prec(r->Ok_0, 0, tree.height, tree.count) == Some(th(stored(*tree), capacity(tree.height), 0))
            && forall|p: u16| #[trigger] has_pos(r->Ok_0.entries@, p) <==> wanted(*query, tree.count, p),
        r matches Ok(x) ==> forall|k: int| 0 <= k < x.entries@.len() ==> (#[trigger] x.entries@[k]).1@ == stored(*tree)[x.entries@[k].0 as int]
//@ end
}
