// reads come out of these nodes
pub open spec fn reads<F: Fn(u64) -> Result<Option<MmrNode>>>(f: F, m: Nodes) -> bool { forall|p: u64, r: Result<Option<MmrNode>>| #[trigger] f.ensures((p,), r) ==> match r { Ok(x) => x == opt(m, p as nat), Err(_) => true } }
pub open spec fn sure<F: Fn(u64) -> Result<Option<MmrNode>>>(f: F) -> bool { forall|p: u64, r: Result<Option<MmrNode>>| #[trigger] f.ensures((p,), r) ==> r is Ok }
pub open spec fn askf<F: Fn(u64) -> Result<Option<MmrNode>>>(f: F) -> bool { forall|p: u64| p < 0x8000_0000_0000_0000 ==> #[trigger] f.requires((p,)) }
// these nodes are the range of these values
pub open spec fn valued(o: Option<MmrNode>, v: Seq<u8>) -> bool { o matches Some(x) && (x.value matches Some(w) && w@ == v) }
pub open spec fn bears(m: Nodes, size: u64, vs: Seq<Seq<u8>>) -> bool {
    &&& msize(vs.len()) == size && vs.len() <= 0x4000_0000_0000_0000
    &&& forall|p: nat| p < size ==> (#[trigger] opt(m, p)) is Some && opt(m, p)->0.hash == val(lhs(vs), p)
    &&& forall|i: nat| i < vs.len() ==> valued(opt(m, #[trigger] msize(i)), vs[i as int])
}
pub open spec fn picked(a: Vals, ix: Seq<u64>, vs: Seq<Seq<u8>>) -> bool { a.len() == ix.len() && forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 == ix[j] && a[j].1@ == vs[ix[j] as int] }
pub open spec fn distinct_ix(ix: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < ix.len() ==> #[trigger] ix[i] != #[trigger] ix[j] }
impl MmrTreeProof {
//@ fn grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof::generate
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ sig get_node: F) ==> get_node: F, Ghost(m): Ghost<Nodes>, Ghost(vs): Ghost<Seq<Seq<u8>>>)
  //@ rule leaf_to_pos ==> leaf_index_to_pos
  //@ rule BTreeSet::new() ==> Seen::new()
  //@ rule for &idx in leaf_indices { $b.. } ==> let mut li: usize = 0; while li < leaf_indices.len() { let idx = leaf_indices[li]; li += 1; $b }
  //@ rule let positions: Vec<u64> = leaf_indices.iter().map(|&idx| $e..).collect(); ==> let mut positions: Vec<u64> = Vec::new(); let mut pi: usize = 0; while pi < leaf_indices.len() { let idx = leaf_indices[pi]; positions.push($e); pi += 1; }
  //@ rule let mut leaves = Vec::with_capacity($x..); ==> let mut leaves: Vec<(u64, Vec<u8>)> = Vec::new();
  //@ rule let node = get_node(pos)?.ok_or_else($x..)?; ==> let node = match get_node(pos) { Ok(Some(n)) => n, Ok(None) => return Err(err()), Err(e) => return Err(e) };
  //@ rule let value = node.into_value().ok_or_else($x..)?; ==> let value = match node.into_value() { Some(v) => v, None => return Err(err()) };
  //@ rule LazyNodeStore::new(&get_node) ==> LazyNodeStore::new(&get_node, Ghost(m))
  //@ rule crate::MMR::new(mmr_size, &store) ==> MMR::new(mmr_size, store.share())
  //@ rule mmr.gen_proof(positions).unwrap() ==> mmr.gen_proof(positions)
  //@ rule let proof = proof_result.map_err($x..)?; ==> let proof = match proof_result { Ok(p) => p, Err(_) => return Err(err()) };
  //@ rule let proof_items: Vec<[u8; 32]> = proof.proof_items().iter().map(|node| $e..).collect(); ==> let all_items = proof.proof_items(); let mut proof_items: Vec<[u8; 32]> = Vec::new(); let mut qi: usize = 0; while qi < all_items.len() { let node = &all_items[qi]; proof_items.push($e); qi += 1; }
  //@ spec
    requires reads(get_node, m), askf(get_node), bears(m, mmr_size, vs)
    ensures match r {
        // for a set of leaves that exist: their values, and items that take them to the root
        Ok(p) => p.mmr_size == mmr_size && picked(p.leaves@, leaf_indices@, vs) && distinct(p.leaves@) && p.leaves@.len() > 0 && in_count(p.leaves@, mmr_size) && root_of_size(p.leaves@, mmr_size, p.proof_items@) == Some(mroot(vs.len(), lhs(vs))),
        Err(_) => !sure(get_node) || leaf_indices@.len() == 0 || !distinct_ix(leaf_indices@) || exists|j: int| 0 <= j < leaf_indices@.len() && #[trigger] leaf_indices@[j] >= vs.len(),
    }
  //@ at start
    let ghost ix = leaf_indices@; let ghost n = vs.len();
    proof { leaf_at(n); }
  //@ loop 1
    invariant li <= ix.len(), forall|j: int| 0 <= j < li ==> #[trigger] ix[j] < n, forall|i: int, j: int| 0 <= i < j < li ==> #[trigger] ix[i] != #[trigger] ix[j], forall|i: u64| #[trigger] seen_indices@.contains(i) <==> exists|j: int| 0 <= j < li && #[trigger] ix[j] == i,
    decreases ix.len() - li
  //@ after let idx = leaf_indices[li];
    let ghost s0 = seen_indices@;
  //@ loopend 1
    proof { assert forall|i: u64| #[trigger] seen_indices@.contains(i) <==> exists|j: int| 0 <= j < li && #[trigger] ix[j] == i by { if i == idx { assert(ix[li - 1] == i); } else { assert(s0.contains(i) <==> exists|j: int| 0 <= j < li - 1 && #[trigger] ix[j] == i); } } }
  //@ loop 2
    invariant pi <= ix.len(), positions@.len() == pi, forall|j: int| 0 <= j < pi ==> #[trigger] positions@[j] == positions_of(ix)[j],
    decreases ix.len() - pi
  //@ loop 3
    invariant li <= ix.len(), leaves@.len() == li, forall|j: int| 0 <= j < li ==> (#[trigger] leaves@[j]).0 == ix[j] && leaves@[j].1@ == vs[ix[j] as int],
    decreases ix.len() - li
  //@ after let pos = leaf_index_to_pos(idx);
    proof { lemma_cap(n); lemma_msize_mono(idx as nat, n); assert(valued(opt(m, msize(idx as nat)), vs[idx as int])); assert(pos as nat == msize(idx as nat)); }
  //@ before let proof_result
    proof {
        sel_is(&mmr, m, mmr_size, vs); assert(positions@ =~= positions_of(ix));
        assert(askable(positions@, n)) by { assert forall|j: int| 0 <= j < positions@.len() implies hgt((#[trigger] positions@[j]) as nat) == 0 && idx(positions@[j]) < n by { let i = ix[j] as nat; leaf_at(i); lemma_msize_mono(i, n); } }
    }
  //@ loop 4
    invariant qi <= all_items@.len(), proof_items@.len() == qi, forall|j: int| 0 <= j < qi ==> #[trigger] proof_items@[j] == hs(all_items@)[j],
    decreases all_items@.len() - qi
  //@ postloop 4
    proof { assert(proof_items@ =~= hs(proof.proof@)); answers(leaves@, ix, vs, mmr_size, proof_items@); }
//@ end
}
