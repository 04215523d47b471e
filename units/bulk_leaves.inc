// ---- the leaves a store, the nodes buffered over it and a size make a range of ----
pub open spec fn nval(n: MmrNode) -> Option<Seq<u8>> { match n.value { None => None, Some(v) => Some(v@) } }
pub open spec fn plain(n: MmrNode) -> bool { n.value is Some && !n.is_data_leaf && sound(n) }
pub open spec fn all_plain(l: Seq<MmrNode>) -> bool { forall|i: int| 0 <= i < l.len() ==> plain(#[trigger] l[i]) }
pub open spec fn vals(l: Seq<MmrNode>) -> Seq<Seq<u8>> { l.map_values(|n: MmrNode| (n.value->0)@) }
pub open spec fn made_of(st: Nodes, ov: Ov, size: u64, l: Seq<MmrNode>) -> bool {
    &&& size as nat == msize(l.len()) && l.len() <= 0x4000_0000_0000_0000 && mono(ov) && before(ov, size as nat)
    &&& forall|p: nat| p < msize(l.len()) ==> (#[trigger] look(ov, st, p)) is Some && look(ov, st, p)->0.hash == val(hs(l), p)
    &&& forall|i: nat| i < l.len() ==> same_leaf(look(ov, st, #[trigger] msize(i)), l[i as int])
}
pub open spec fn made_plain(st: Nodes, ov: Ov, size: u64, l: Seq<MmrNode>) -> bool { made_of(st, ov, size, l) && all_plain(l) }
pub open spec fn leaves_in(st: Nodes, ov: Ov, size: u64) -> Option<Seq<Seq<u8>>> {
    if exists|l: Seq<MmrNode>| #[trigger] made_plain(st, ov, size, l) { Some(vals(choose|l: Seq<MmrNode>| #[trigger] made_plain(st, ov, size, l))) } else { None }
}
pub proof fn made_unique(st: Nodes, ov: Ov, size: u64, a: Seq<MmrNode>, b: Seq<MmrNode>) requires made_of(st, ov, size, a), made_of(st, ov, size, b) ensures a == b
{
    lemma_msize_inj(a.len(), b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { let j = i as nat; assert(same_leaf(look(ov, st, msize(j)), a[i])); assert(same_leaf(look(ov, st, msize(j)), b[i])); }
    assert(a =~= b);
}
pub proof fn leaves_are(st: Nodes, ov: Ov, size: u64, l: Seq<MmrNode>) requires made_plain(st, ov, size, l) ensures leaves_in(st, ov, size) == Some(vals(l))
{ let m = choose|m: Seq<MmrNode>| #[trigger] made_plain(st, ov, size, m); made_unique(st, ov, size, l, m); }
pub proof fn leaves_from(st: Nodes, ov: Ov, size: u64) -> (l: Seq<MmrNode>) requires leaves_in(st, ov, size) is Some ensures made_plain(st, ov, size, l), leaves_in(st, ov, size) == Some(vals(l)), l.len() == leaves_in(st, ov, size)->0.len(), hs(l) == lhs(vals(l))
{
    let l = choose|l: Seq<MmrNode>| #[trigger] made_plain(st, ov, size, l);
    assert(hs(l) =~= lhs(vals(l))) by { assert forall|i: int| 0 <= i < l.len() implies hs(l)[i] == lhs(vals(l))[i] by { assert(plain(l[i])); } }
    l
}
pub proof fn of_made<S: MMRStoreReadOps>(m: &MMR<S>, l: Seq<MmrNode>) ensures m.of(l) == made_of(m.batch.store.nodes(), m.batch.memory_batch@, m.mmr_size, l)
{
    let st = m.batch.store.nodes(); let ov = m.batch.memory_batch@;
    if m.of(l) {
        assert forall|p: nat| p < msize(l.len()) implies (#[trigger] look(ov, st, p)) is Some && look(ov, st, p)->0.hash == val(hs(l), p) by { assert(m.batch.seen(p) is Some); }
        assert forall|i: nat| i < l.len() implies same_leaf(look(ov, st, #[trigger] msize(i)), l[i as int]) by { assert(same_leaf(m.batch.seen(msize(i)), l[i as int])); }
    }
    if made_of(st, ov, m.mmr_size, l) {
        assert forall|p: nat| p < msize(l.len()) implies (#[trigger] m.batch.seen(p)) is Some && m.batch.seen(p)->0.hash == val(hs(l), p) by { assert(look(ov, st, p) is Some); }
        assert forall|i: nat| i < l.len() implies same_leaf(m.batch.seen(#[trigger] msize(i)), l[i as int]) by { assert(same_leaf(look(ov, st, msize(i)), l[i as int])); }
    }
}
pub proof fn nothing_yet(st: Nodes) ensures leaves_in(st, Seq::empty(), 0) == Some(Seq::<Seq<u8>>::empty())
{ let l = Seq::<MmrNode>::empty(); assert(msize(0) == 0); assert(made_plain(st, Seq::empty(), 0, l)); leaves_are(st, Seq::empty(), 0, l); assert(vals(l) =~= Seq::<Seq<u8>>::empty()); }
// a store in which only two-byte keys changed has the same nodes
pub proof fn same_nodes(a: Ctx, b: Ctx, ks: MmrKeySize) requires forall|k: Seq<u8>| k.len() != 2 ==> #[trigger] ent(a@, k) == ent(b@, k) ensures (MmrStore { ctx: a, key_size: ks }).nodes() == (MmrStore { ctx: b, key_size: ks }).nodes()
{
    let x = MmrStore { ctx: a, key_size: ks }; let y = MmrStore { ctx: b, key_size: ks };
    assert forall|p: nat| #[trigger] held(&x, p) == held(&y, p) by { if fits(p, ks) { let q = p as u64; keys_apart(q, q, ks); assert(ent(a@, keyof(q, ks)) == ent(b@, keyof(q, ks))); } }
    assert(x.nodes() =~= y.nodes());
}
