// ---- trusted: queues, iterators, sorting ----
#[verifier::external_body] pub struct Queue { x: u8 }
impl Queue {
    pub uninterp spec fn view(&self) -> Seq<(u64, MmrNode, u8)>;
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<(u64, MmrNode, u8)>) ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@, r is Some ==> old(self)@.len() > 0 && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: (u64, MmrNode, u8)) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn front_at(&self, p: u64) -> (r: bool) ensures r == (self@.len() > 0 && self@[0].0 == p) { unimplemented!() }
}
#[verifier::external_body] pub fn queue_of(v: Vec<(u64, MmrNode)>) -> (r: Queue) ensures r@ == v@.map_values(|x: (u64, MmrNode)| (x.0, x.1, 0u8)) { unimplemented!() }
pub fn pop_item(q: &mut Queue) -> (r: MmrNode) requires old(q)@.len() > 0 ensures r == old(q)@[0].1, final(q)@ == old(q)@.skip(1) { let x = q.pop_front(); x.unwrap().1 }
#[verifier::external_body] pub struct Items<'a> { x: &'a u8 }
impl<'a> Items<'a> {
    pub uninterp spec fn view(&self) -> Seq<MmrNode>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a MmrNode>) ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@, r is Some ==> old(self)@.len() > 0 && *r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
#[verifier::external_body] pub fn items_of<'a>(v: &'a Vec<MmrNode>) -> (r: Items<'a>) ensures r@ == v@ { unimplemented!() }
pub type Leaves = Seq<(u64, MmrNode)>;
// the first entry of its position
pub open spec fn lead<T>(a: Seq<(u64, T)>, x: (u64, T)) -> bool { exists|k: int| 0 <= k < a.len() && #[trigger] a[k] == x && forall|m: int| 0 <= m < k ==> (#[trigger] a[m]).0 != x.0 }
// a stable sort, then dropping repeated positions: the first entry of every position stays
pub uninterp spec fn sorted(a: Leaves) -> Leaves;
pub uninterp spec fn once(a: Leaves) -> Leaves;
pub axiom fn std_sort(a: Leaves) ensures forall|x: (u64, MmrNode)| lead(a, x) ==> #[trigger] lead(sorted(a), x), forall|x: (u64, MmrNode)| #[trigger] sorted(a).contains(x) ==> a.contains(x);
pub axiom fn std_once(a: Leaves) ensures forall|x: (u64, MmrNode)| lead(a, x) ==> #[trigger] lead(once(a), x), forall|x: (u64, MmrNode)| #[trigger] once(a).contains(x) ==> a.contains(x);
#[verifier::external_body] pub fn sort_leaves(v: &mut Vec<(u64, MmrNode)>) ensures final(v)@ == sorted(old(v)@) { unimplemented!() }
#[verifier::external_body] pub fn dedup_leaves(v: &mut Vec<(u64, MmrNode)>) ensures final(v)@ == once(old(v)@) { unimplemented!() }
#[verifier::external_body] pub fn split_front<T>(v: &mut Vec<T>, i: usize) -> (r: Vec<T>) requires i <= old(v)@.len() ensures r@ == old(v)@.take(i as int), final(v)@ == old(v)@.skip(i as int) { v.drain(..i).collect() }
#[verifier::external_body] pub fn take_all<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
// ---- what the functions compute ----
pub type Qe = (nat, H, nat);
pub open spec fn qv(q: Seq<(u64, MmrNode, u8)>) -> Seq<Qe> { q.map_values(|x: (u64, MmrNode, u8)| (x.0 as nat, x.1.hash, x.2 as nat)) }
pub open spec fn is_right(p: nat, h: nat) -> bool { hgt((p + 1) as nat) > h }
pub open spec fn sibp(p: nat, h: nat) -> nat { if is_right(p, h) { (p - (pow2(h + 1) - 1)) as nat } else { (p + pow2(h + 1) - 1) as nat } }
pub open spec fn parp(p: nat, h: nat) -> nat { if is_right(p, h) { p + 1 } else { p + pow2(h + 1) } }
pub open spec fn join(right: bool, x: H, s: H) -> H { if right { mergeh(s, x) } else { mergeh(x, s) } }
pub open spec fn fromq(q: Seq<Qe>) -> bool { q.len() > 1 && q[1].0 == sibp(q[0].0, q[0].2) }
pub open spec fn next_q(q: Seq<Qe>, it: Seq<H>) -> Seq<Qe> {
    let x = q[0];
    (if fromq(q) { q.skip(2) } else { q.skip(1) }).push((parp(x.0, x.2), join(is_right(x.0, x.2), x.1, if fromq(q) { q[1].1 } else { it[0] }), x.2 + 1))
}
pub open spec fn next_it(q: Seq<Qe>, it: Seq<H>) -> Seq<H> { if fromq(q) { it } else { it.skip(1) } }
pub open spec fn w1(p: nat, pk: nat) -> nat { if p <= pk { (pk + 1 - p) as nat } else { 0 } }
pub open spec fn weight(q: Seq<Qe>, pk: nat) -> nat decreases q.len() { if q.len() == 0 { 0 } else { w1(q[0].0, pk) + weight(q.skip(1), pk) } }
pub proof fn weight_push(q: Seq<Qe>, x: Qe, pk: nat) ensures weight(q.push(x), pk) == weight(q, pk) + w1(x.0, pk) decreases q.len()
{
    if q.len() == 0 { assert(q.push(x).skip(1) =~= Seq::empty()); assert(weight(q.push(x).skip(1), pk) == 0); }
    else { assert(q.push(x).skip(1) =~= q.skip(1).push(x)); weight_push(q.skip(1), x, pk); }
}
pub proof fn weight_next(q: Seq<Qe>, it: Seq<H>, pk: nat) requires q.len() > 0, parp(q[0].0, q[0].2) <= pk ensures weight(next_q(q, it), pk) < weight(q, pk)
{
    let x = q[0]; lemma_pow2_pos((x.2 + 1) as nat);
    let rest = if fromq(q) { q.skip(2) } else { q.skip(1) };
    assert(weight(q, pk) == w1(x.0, pk) + weight(q.skip(1), pk));
    if fromq(q) { assert(q.skip(1).skip(1) =~= q.skip(2)); assert(q.skip(1)[0] == q[1]); assert(weight(q.skip(1), pk) == w1(q[1].0, pk) + weight(q.skip(2), pk)); }
    assert(weight(rest, pk) <= weight(q.skip(1), pk)); assert(w1(parp(x.0, x.2), pk) < w1(x.0, pk));
    weight_push(rest, next_q(q, it).last(), pk);
    assert(next_q(q, it) == rest.push(next_q(q, it).last()));
}
// the root of one peak: siblings from the queue where they are, from the proof otherwise
pub open spec fn run(q: Seq<Qe>, it: Seq<H>, pk: nat) -> Option<(H, Seq<H>)> decreases weight(q, pk) via run_dec {
    if q.len() == 0 { None }
    else if q[0].0 == pk { if q.len() == 1 { Some((q[0].1, it)) } else { None } }
    else if !fromq(q) && it.len() == 0 { None }
    else if parp(q[0].0, q[0].2) > pk { None }
    else { run(next_q(q, it), next_it(q, it), pk) }
}
#[via_fn] proof fn run_dec(q: Seq<Qe>, it: Seq<H>, pk: nat) { if q.len() > 0 && parp(q[0].0, q[0].2) <= pk { weight_next(q, it, pk); } }
pub open spec fn level(q: Seq<Qe>) -> bool { forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).2 == hgt(q[j].0) }
pub open spec fn says(q: Seq<Qe>, ls: Seq<H>) -> bool { forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).1 == val(ls, q[j].0) }
pub proof fn family(p: nat) ensures ({ let h = hgt(p); hgt(parp(p, h)) == h + 1 && (forall|ls: Seq<H>| #[trigger] val(ls, parp(p, h)) == join(is_right(p, h), val(ls, p), val(ls, sibp(p, h)))) && (is_right(p, h) ==> pow2(h + 1) - 1 <= p)
        && (p + 1 < 0xffff_ffff_ffff_ffff ==> h <= 62 && parp(p, h) <= u64::MAX && sibp(p, h) <= u64::MAX) && hgt(sibp(p, h)) == h })
{
    node_some(p); let (i, h) = node(p); lemma_pow2_pos((h + 1) as nat); lemma2_to64();
    if h < tz((i + 1) as nat) { lemma_right(p, i, h); if h >= 63 { if h > 63 { lemma_pow2_strictly_increases(64, (h + 1) as nat); } } } else { lemma_left(p, i, h); }
}
pub proof fn level_next(q: Seq<Qe>, it: Seq<H>) requires q.len() > 0, level(q) ensures level(next_q(q, it)) { family(q[0].0); }
// a run that ends in the peak of this range started from hashes of this range
pub proof fn run_sound(q: Seq<Qe>, it: Seq<H>, pk: nat, ls: Seq<H>) requires level(q), run(q, it, pk) is Some, (run(q, it, pk)->0).0 == val(ls, pk) ensures says(q, ls) decreases weight(q, pk)
{
    if q[0].0 == pk { }
    else {
        let n = next_q(q, it); let x = q[0]; let r = is_right(x.0, x.2);
        weight_next(q, it, pk); level_next(q, it); run_sound(n, next_it(q, it), pk, ls); family(x.0);
        let s = if fromq(q) { q[1].1 } else { it[0] }; assert(n.last().1 == val(ls, n.last().0));
        if r { mergeh_inj(s, x.1, val(ls, sibp(x.0, x.2)), val(ls, x.0)); } else { mergeh_inj(x.1, s, val(ls, x.0), val(ls, sibp(x.0, x.2))); }
        assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).1 == val(ls, q[j].0) by { if j > 0 { if fromq(q) { if j > 1 { assert(n[j - 2] == q[j]); } } else { assert(n[j - 1] == q[j]); } } }
    }
}
//@ fn grovedb-merkle-mountain-range/src/helper.rs parent_offset
  //@ ret r
  //@ spec
    requires height <= 62 ensures r as nat == pow2((height + 1) as nat)
  //@ at start
    proof { shl_two(height); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs sibling_offset
  //@ ret r
  //@ spec
    requires height <= 62 ensures r as nat == pow2((height + 1) as nat) - 1
  //@ at start
    proof { shl_two(height); lemma_pow2_pos((height + 1) as nat); }
//@ end
pub proof fn shl_two(h: u8) requires h <= 62 ensures (2u64 << h) as nat == pow2((h + 1) as nat)
{
    lemma_pow2_unfold((h + 1) as nat); lemma2_to64(); lemma_pow2_unfold(64); if h < 62 { lemma_pow2_strictly_increases(h as nat, 62); } lemma_pow2_unfold(63);
    vstd::bits::lemma_u64_shl_is_mul(2, h as u64); assert(2u64 << h == 2u64 << (h as u64)) by (bit_vector);
}
//@ fn grovedb-merkle-mountain-range/src/proof.rs calculate_peak_root
  //@ attr #[verifier::allow_complex_invariants]
  //@ attr #[verifier::loop_isolation(false)]
  //@ sig <'a, I: Iterator<Item = &'a MmrNode>> ==> <'a>
  //@ sig proof_iter: &mut I ==> proof_iter: &mut Items<'a>
  //@ ret r
  //@ rule debug_assert!($x..); ==> 
  //@ rule let mut queue: VecDeque<_> = leaves.into_iter().map(|(pos, item)| (pos, item, 0)).collect(); ==> let mut queue = queue_of(leaves);
  //@ rule while let Some(($a, $b, $c)) = queue.pop_front() { $d.. } ==> loop { let ($a, $b, $c) = match queue.pop_front() { Some(x) => x, None => break }; $d }
  //@ rule Some(&sib_pos) == queue.front().map(|(pos, ..)| pos) ==> queue.front_at(sib_pos)
  //@ rule queue.pop_front().map(|(_, item, _)| item).unwrap() ==> pop_item(&mut queue)
  //@ rule proof_iter.next().ok_or(err())? ==> match proof_iter.next() { Some(x) => x, None => return Err(err()) }
  //@ spec
    requires leaves@.len() > 0, peak_pos < u64::MAX, forall|j: int| 0 <= j < leaves@.len() ==> (#[trigger] leaves@[j]).0 <= peak_pos && hgt(leaves@[j].0 as nat) == 0
    ensures ({ let x = run(lq(leaves@), hs(old(proof_iter)@), peak_pos as nat); match r { Ok(n) => x == Some((n.hash, hs(final(proof_iter)@))), Err(_) => x is None } })
  //@ at start
    let ghost q0 = lq(leaves@); let ghost it0 = hs(proof_iter@); let ghost pk = peak_pos as nat;
  //@ preloop 1
    proof { assert(qv(queue@) =~= q0); }
  //@ loop 1
    invariant run(qv(queue@), hs(proof_iter@), pk) == run(q0, it0, pk), level(qv(queue@)), forall|j: int| 0 <= j < queue@.len() ==> (#[trigger] queue@[j]).0 <= peak_pos,
    ensures run(q0, it0, pk) is None,
    decreases weight(qv(queue@), pk)
  //@ loopstart 1
    let ghost q = qv(queue@); let ghost it = hs(proof_iter@); let ghost qe = queue@; let ghost ie = proof_iter@;
  //@ before let next_height
    proof { assert(q[0] == (pos as nat, item.hash, height as nat)); family(pos as nat); let n = node((pos + 1) as nat); node_some((pos + 1) as nat); }
  //@ loopend 1
    proof {
        weight_next(q, it, pk); level_next(q, it);
        assert(qv(queue@) =~= next_q(q, it)); assert(hs(proof_iter@) =~= next_it(q, it));
    }
//@ end
pub open spec fn lq(l: Leaves) -> Seq<Qe> { l.map_values(|x: (u64, MmrNode)| (x.0 as nat, x.1.hash, 0nat)) }
//@ fn grovedb-merkle-mountain-range/src/proof.rs take_while_vec
  //@ ret r
  //@ rule v.drain(..i).collect() ==> split_front(v, i)
  //@ rule mem::take(v) ==> take_all(v)
  //@ rule for i in 0..v.len() { $b.. } ==> let mut i: usize = 0; while i < v.len() { $b i += 1; }
  //@ spec
    requires forall|x: &T| #[trigger] p.requires((x,))
    ensures exists|k: int| 0 <= k <= old(v)@.len() && r@ == old(v)@.take(k) && final(v)@ == #[trigger] old(v)@.skip(k) && (forall|j: int| 0 <= j < k ==> p.ensures((&#[trigger] old(v)@[j],), true)) && (k < old(v)@.len() ==> p.ensures((&old(v)@[k],), false))
  //@ at start
    let ghost v0 = v@;
  //@ loop 1
    invariant v@ == v0, v0 == old(v)@, i <= v0.len(), forall|x: &T| #[trigger] p.requires((x,)), forall|j: int| 0 <= j < i ==> p.ensures((&#[trigger] v0[j],), true)
    decreases v0.len() - i
  //@ before return split_front
    proof { let ghost k = i as int; assert(v0.skip(k) == v0.skip(k)); }
  //@ before take_all(v)
    proof { let ghost k = v0.len() as int; assert(v0.take(k) =~= v0); assert(v0.skip(k) =~= Seq::<T>::empty()); }
//@ end
// how many leaves come before or at this position
pub open spec fn upto(l: Leaves, p: u64) -> nat decreases l.len() { if l.len() == 0 || l[0].0 > p { 0 } else { 1 + upto(l.skip(1), p) } }
pub proof fn upto_is(l: Leaves, p: u64, k: int) requires 0 <= k <= l.len(), forall|j: int| 0 <= j < k ==> (#[trigger] l[j]).0 <= p, k < l.len() ==> l[k].0 > p ensures upto(l, p) == k decreases k
{ if k > 0 { let t = l.skip(1); assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] t[j]).0 <= p by { assert(t[j] == l[j + 1]); } upto_is(t, p, k - 1); } }
pub proof fn upto_max(l: Leaves, p: u64) ensures upto(l, p) <= l.len() decreases l.len() { if l.len() > 0 && l[0].0 <= p { upto_max(l.skip(1), p); } }
pub open spec fn one(g: Leaves, p: u64, it: Seq<H>) -> Option<(H, Seq<H>)> {
    if g.len() == 1 && g[0].0 == p { Some((g[0].1.hash, it)) }
    else if g.len() == 0 { if it.len() == 0 { None } else { Some((it[0], it.skip(1))) } }
    else { run(lq(g), it, p as nat) }
}
// the hashes of the peaks; when every leaf is used up, one item stands for all the peaks on the right
pub open spec fn prun(l: Leaves, pks: Seq<u64>, it: Seq<H>, any: bool) -> Option<Seq<H>> decreases pks.len() {
    if pks.len() == 0 { if l.len() == 0 && it.len() == 0 { Some(Seq::empty()) } else { None } }
    else {
        let k = upto(l, pks[0]) as int;
        match one(l.take(k), pks[0], it) {
            None => None,
            Some(x) => if any && l.len() == 0 { if x.1.len() == 0 { Some(seq![x.0]) } else { None } }
                else { match prun(l.skip(k), pks.skip(1), x.1, any) { None => None, Some(v) => Some(seq![x.0] + v) } }
        }
    }
}
pub open spec fn cat(v: Seq<H>, r: Option<Seq<H>>) -> Option<Seq<H>> { match r { None => None, Some(x) => Some(v + x) } }
pub open spec fn flat(l: Leaves) -> bool { forall|j: int| 0 <= j < l.len() ==> hgt((#[trigger] l[j]).0 as nat) == 0 }
pub open spec fn pruns(l: Leaves, size: u64, it: Seq<H>, n: nat) -> Option<Seq<H>> {
    if !flat(l) { None }
    else if size == 1 && l.len() == 1 && l[0].0 == 0 { Some(seq![l[0].1.hash]) }
    else { let t = once(sorted(l)); prun(t, peaks_from(0, n, 64), it, t.len() > 0) }
}
pub open spec fn holds(l: Leaves, ls: Seq<H>) -> bool { forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).1.hash == val(ls, l[j].0 as nat) }
// all but the last are these peaks; the last too if they are as many
pub open spec fn starts(v: Seq<H>, pks: Seq<u64>, ls: Seq<H>) -> bool { v.len() <= pks.len() && forall|i: int| 0 <= i < v.len() && (i < v.len() - 1 || v.len() == pks.len()) ==> #[trigger] v[i] == val(ls, pks[i] as nat) }
pub proof fn prun_sound(l: Leaves, pks: Seq<u64>, it: Seq<H>, any: bool, ls: Seq<H>)
    requires prun(l, pks, it, any) is Some, flat(l)
    ensures prun(l, pks, it, any)->0.len() <= pks.len(), pks.len() > 0 ==> prun(l, pks, it, any)->0.len() > 0, starts(prun(l, pks, it, any)->0, pks, ls) ==> holds(l, ls), decreases pks.len()
{
    let v = prun(l, pks, it, any)->0;
    if pks.len() > 0 && !(any && l.len() == 0) {
        let k = upto(l, pks[0]) as int; upto_max(l, pks[0]); let g = l.take(k); let rest = l.skip(k); let x = one(g, pks[0], it)->0;
        let v2 = prun(rest, pks.skip(1), x.1, any)->0; assert(v == seq![x.0] + v2);
        assert(flat(rest)) by { assert forall|j: int| 0 <= j < rest.len() implies hgt((#[trigger] rest[j]).0 as nat) == 0 by { assert(rest[j] == l[j + k]); } }
        prun_sound(rest, pks.skip(1), x.1, any, ls);
        if starts(v, pks, ls) {
            assert forall|i: int| 0 <= i < v2.len() && (i < v2.len() - 1 || v2.len() == pks.skip(1).len()) implies #[trigger] v2[i] == val(ls, pks.skip(1)[i] as nat) by { assert(v[i + 1] == v2[i]); }
            assert(starts(v2, pks.skip(1), ls)); assert(holds(rest, ls));
            assert(v[0] == x.0); assert(v[0] == val(ls, pks[0] as nat));
            if g.len() == 0 || (g.len() == 1 && g[0].0 == pks[0]) { assert(holds(g, ls)); }
            else {
                assert(level(lq(g))) by { assert forall|j: int| 0 <= j < lq(g).len() implies (#[trigger] lq(g)[j]).2 == hgt(lq(g)[j].0) by { assert(g[j] == l[j]); } }
                run_sound(lq(g), it, pks[0] as nat, ls);
                assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).1.hash == val(ls, g[j].0 as nat) by { assert(lq(g)[j].1 == val(ls, lq(g)[j].0)); }
            }
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]).1.hash == val(ls, l[j].0 as nat) by { if j < k { assert(g[j] == l[j]); } else { assert(rest[j - k] == l[j]); } }
        }
    }
}
pub proof fn bag_sound(v: Seq<H>, w: Seq<H>) requires bag(v) == bag(w), 1 <= v.len() <= w.len() ensures forall|i: int| 0 <= i < v.len() && (i < v.len() - 1 || v.len() == w.len()) ==> #[trigger] v[i] == w[i] decreases v.len()
{
    if v.len() > 1 {
        let a = v.drop_first(); let b = w.drop_first(); mergeh_inj(bag(a), v[0], bag(b), w[0]); bag_sound(a, b);
        assert forall|i: int| 0 <= i < v.len() && (i < v.len() - 1 || v.len() == w.len()) implies #[trigger] v[i] == w[i] by { if i > 0 { assert(a[i - 1] == v[i]); assert(b[i - 1] == w[i]); } }
    }
}
pub open spec fn truly(l: Leaves, ls: Seq<H>) -> bool { forall|x: (u64, MmrNode)| #[trigger] lead(l, x) ==> x.1.hash == val(ls, x.0 as nat) }
pub proof fn pruns_sound(l: Leaves, size: u64, it: Seq<H>, n: nat, h: nat, ls: Seq<H>)
    requires isnode(size as nat, n, h), pruns(l, size, it, n) is Some, pruns(l, size, it, n)->0.len() > 0, bag(pruns(l, size, it, n)->0) == mroot(n, ls) ensures truly(l, ls)
{
    let v = pruns(l, size, it, n)->0; let pks = peaks_from(0, n, 64);
    if size == 1 && l.len() == 1 && l[0].0 == 0 {
        assert(isnode(1, 1, 0)) by { assert(tz(1) == 0); assert(msize(0) == 0); assert(msize(1) == msize(0) + 1 + tz(1)); } node_unique(1, n, h, 1, 0);
        lemma2_to64(); lemma_peaks_k(0, 1, 1, 64); lemma_peaks_zero(1, 0); assert(peaks_from(0, 1, 1) =~= seq![0u64]); 
        assert(peak_vals(1, ls) =~= seq![val(ls, 0)]);
        assert(v[0] == val(ls, 0));
        assert forall|x: (u64, MmrNode)| #[trigger] lead(l, x) implies x.1.hash == val(ls, x.0 as nat) by { assert(l[0] == x); }
    } else {
        std_sort(l); std_once(sorted(l)); let t = once(sorted(l));
        assert(flat(t)) by { assert forall|j: int| 0 <= j < t.len() implies hgt((#[trigger] t[j]).0 as nat) == 0 by { assert(t.contains(t[j])); assert(l.contains(t[j])); } }
        prun_sound(t, pks, it, t.len() > 0, ls); bag_sound(v, peak_vals(n, ls));
        assert(starts(v, pks, ls)) by { assert forall|i: int| 0 <= i < v.len() && (i < v.len() - 1 || v.len() == pks.len()) implies #[trigger] v[i] == val(ls, pks[i] as nat) by { assert(peak_vals(n, ls)[i] == val(ls, pks[i] as nat)); } }
        assert forall|x: (u64, MmrNode)| #[trigger] lead(l, x) implies x.1.hash == val(ls, x.0 as nat) by { assert(lead(sorted(l), x)); assert(lead(t, x)); }
    }
}
#[verifier::external_body] pub fn nodes_only(v: Vec<(u64, MmrNode)>) -> (r: Vec<MmrNode>) ensures r@ == v@.map_values(|x: (u64, MmrNode)| x.1) { v.into_iter().map(|(_, x)| x).collect() }
//@ fn grovedb-merkle-mountain-range/src/proof.rs calculate_peaks_hashes
  //@ attr #[verifier::loop_isolation(false)]
  //@ attr #[verifier::allow_complex_invariants]
  //@ sig <'a, I: Iterator<Item = &'a MmrNode>> ==> <'a>
  //@ sig mut proof_iter: I ==> mut proof_iter: Items<'a>
  //@ ret r
  //@ rule1 if leaves.iter().any(|(pos, _)| $c..) { $d.. } ==> let mut high = false; let mut ai: usize = 0; while ai < leaves.len() { let pos = &leaves[ai].0; if $c { high = true; } ai += 1; } if high { $d }
  //@ rule leaves.into_iter().map(|(_pos, item)| item).collect() ==> nodes_only(leaves)
  //@ rule leaves.sort_by_key(|(pos, _)| *pos) ==> sort_leaves(&mut leaves)
  //@ rule leaves.dedup_by(|a, b| a.0 == b.0) ==> dedup_leaves(&mut leaves)
  //@ rule for peak_pos in peaks { $b.. } ==> let mut pi: usize = 0; while pi < peaks.len() { let peak_pos = peaks[pi]; pi += 1; $b }
  //@ rule let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| $c..); ==> let group = take_while_vec(&mut leaves, |x: &(u64, MmrNode)| -> (b: bool) ensures b == (x.0 <= peak_pos) { let pos = &x.0; $c }); let ghost left = leaves@; let mut leaves = group;
  //@ rule peak_root.clone() ==> clone_node(peak_root)
  //@ rule proof_iter.next().is_some() ==> is_some(proof_iter.next())
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) ==> ({ let x = pruns(leaves@, mmr_size, hs(proof_iter@), n); match r { Ok(v) => x == Some(hs(v@)), Err(_) => x is None } })
  //@ at start
    let ghost l0 = leaves@; let ghost it0 = hs(proof_iter@); let ghost (n, h) = node_of(mmr_size as nat); let ghost pks = peaks_from(0, n, 64);
    proof {
        lemma_peak_bound(n, mmr_size as nat, h);
        assert forall|a: nat, b: nat| #[trigger] isnode(mmr_size as nat, a, b) implies a == n by { node_unique(mmr_size as nat, a, b, n, h); }
    }
  //@ loop 1
    invariant ai <= leaves@.len(), leaves@ == l0, high == exists|j: int| 0 <= j < ai && hgt((#[trigger] l0[j]).0 as nat) > 0,
    decreases l0.len() - ai
  //@ loopstart 1
    proof { node_some(leaves@[ai as int].0 as nat); }
  //@ before let peaks
    let ghost t = leaves@;
    proof { std_sort(l0); std_once(sorted(l0)); assert forall|j: int| 0 <= j < t.len() implies hgt((#[trigger] t[j]).0 as nat) == 0 by { assert(t.contains(t[j])); assert(l0.contains(t[j])); } }
  //@ preloop 2
    let ghost all = prun(t, pks, it0, has_leaves);
    proof { assert(pks.skip(0) =~= pks); assert(hs(peaks_hashes@) =~= Seq::<H>::empty()); assert(cat(Seq::<H>::empty(), all) == all) by { if all is Some { assert(Seq::<H>::empty() + all->0 =~= all->0); } } }
  //@ loop 2
    invariant_except_break pi <= peaks@.len(), !missing_peak, all == cat(hs(peaks_hashes@), prun(leaves@, pks.skip(pi as int), hs(proof_iter@), has_leaves)),
    invariant flat(leaves@), peaks@ == pks,
    ensures missing_peak && leaves@.len() == 0 ==> all is None, leaves@.len() > 0 ==> all is None, !missing_peak && leaves@.len() == 0 ==> all == (if proof_iter@.len() == 0 { Some(hs(peaks_hashes@)) } else { None }),
    decreases peaks@.len() - pi
  //@ after pi += 1;
    let ghost lv = leaves@; let ghost it = hs(proof_iter@); let ghost vs = hs(peaks_hashes@); let ghost rest = pks.skip(pi - 1);
    proof { assert(rest[0] == peak_pos); assert(rest.skip(1) =~= pks.skip(pi as int)); }
  //@ after let mut leaves = group;
    proof { let k = choose|k: int| 0 <= k <= lv.len() && leaves@ == lv.take(k) && left == #[trigger] lv.skip(k) && (forall|j: int| 0 <= j < k ==> (#[trigger] lv[j]).0 <= peak_pos) && (k < lv.len() ==> lv[k].0 > peak_pos); upto_is(lv, peak_pos, k); assert forall|j: int| 0 <= j < left.len() implies hgt((#[trigger] left[j]).0 as nat) == 0 by { assert(left[j] == lv[j + k]); } assert forall|j: int| 0 <= j < leaves@.len() implies (#[trigger] leaves@[j]).0 <= peak_pos && hgt(leaves@[j].0 as nat) == 0 by { assert(leaves@[j] == lv[j]); } }
    let ghost gr = leaves@;
  //@ after peaks_hashes.push(peak_root);
    proof { assert(hs(peaks_hashes@) =~= vs.push(peak_root.hash)); assert(one(gr, peak_pos, it) == Some((peak_root.hash, hs(proof_iter@)))); let z = prun(left, pks.skip(pi as int), hs(proof_iter@), has_leaves); if z is Some { assert(vs + (seq![peak_root.hash] + z->0) =~= vs.push(peak_root.hash) + z->0); } assert(vs + seq![peak_root.hash] =~= vs.push(peak_root.hash)); }
//@ end
pub proof fn lemma_peak_bound(n: nat, size: nat, h: nat) requires isnode(size, n, h), size <= u64::MAX ensures n < pow2(64), forall|j: int| 0 <= j < peaks_from(0, n, 64).len() ==> #[trigger] peaks_from(0, n, 64)[j] < u64::MAX
{ lemma2_to64(); lemma_msize_top(n); peaks_below(0, n, 64); }
pub fn is_some(x: Option<&MmrNode>) -> (r: bool) ensures r == (x is Some) { match x { Some(_) => true, None => false } }
// the root these leaves and items give, if any
pub open spec fn rootof(l: Leaves, size: u64, it: Seq<H>, n: nat) -> Option<H> { match pruns(l, size, it, n) { Some(v) => if v.len() > 0 { Some(bag(v)) } else { None }, None => None } }
//@ fn grovedb-merkle-mountain-range/src/proof.rs calculate_root
  //@ sig <'a, I: Iterator<Item = &'a MmrNode>> ==> <'a>
  //@ sig proof_iter: I ==> proof_iter: Items<'a>
  //@ ret r
  //@ rule bag_peaks(peaks_hashes)?.ok_or(err()) ==> match bag_peaks(peaks_hashes)? { Some(x) => Ok(x), None => Err(err()) }
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) ==> rootof(leaves@, mmr_size, hs(proof_iter@), n) == hash_in(r)
//@ end
pub open spec fn hash_in(r: Result<MmrNode>) -> Option<H> { match r { Ok(n) => Some(n.hash), Err(_) => None } }
//@ type grovedb-merkle-mountain-range/src/proof.rs MerkleProof
impl MerkleProof {
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::new
  //@ ret r
  //@ spec
    ensures r.mmr_size == mmr_size, (r.proof == proof)
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::mmr_size
  //@ ret r
  //@ spec
    ensures r == self.mmr_size
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::calculate_root
  //@ ret r
  //@ rule self.proof.iter() ==> items_of(&self.proof)
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(self.mmr_size as nat, n, h) ==> rootof(leaves@, self.mmr_size, hs(self.proof@), n) == hash_in(r)
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::verify
  //@ ret r
  //@ rule self.calculate_root(leaves).map(|$x| $a == $b) ==> match self.calculate_root(leaves) { Ok($x) => Ok(same32(&$a.hash, &$b.hash)), Err(e) => Err(e) }
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(self.mmr_size as nat, n, h) ==> match rootof(leaves@, self.mmr_size, hs(self.proof@), n) { Some(x) => r == Ok::<bool, Error>(x == root.hash), None => r is Err }
//@ end
}
// ---- proofs of values ----
//@ type grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof
pub type VerifiedLeaves = Vec<(u64, Vec<u8>)>;
pub type Vals = Seq<(u64, Vec<u8>)>;
#[verifier::external_body] pub struct Seen { x: u8 }
impl Seen {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: u64) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) { unimplemented!() }
}
#[verifier::external_body] pub fn clone_leaf(x: &(u64, Vec<u8>)) -> (r: (u64, Vec<u8>)) ensures r == *x { x.clone() }
pub open spec fn entry(x: (u64, Vec<u8>), y: (u64, MmrNode)) -> bool { y.0 as nat == msize(x.0 as nat) && y.1.hash == leafh(x.1@) }
pub open spec fn entries(a: Vals, b: Leaves) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> entry(#[trigger] a[j], b[j]) }
// the leaves these values stand for
pub open spec fn stand1(x: (u64, Vec<u8>)) -> (u64, MmrNode) { (msize(x.0 as nat) as u64, MmrNode { hash: leafh(x.1@), value: None, is_data_leaf: false }) }
pub open spec fn stand(a: Vals) -> Leaves { a.map_values(|x: (u64, Vec<u8>)| stand1(x)) }
pub open spec fn in_count(a: Vals, size: u64) -> bool { forall|j: int, n: nat, h: nat| 0 <= j < a.len() && #[trigger] isnode(size as nat, n, h) ==> (#[trigger] a[j]).0 < n }
pub open spec fn root_of_size(a: Vals, size: u64, it: Seq<H>) -> Option<H> { rootof(stand(a), size, it, node(size as nat).0) }
// these values are the only ones at their positions in a range of this size and root
pub open spec fn in_range(size: u64, root: H, out: Vals) -> bool {
    forall|l: Seq<Seq<u8>>| msize(l.len()) == size && #[trigger] mroot(l.len(), lhs(l)) == root ==> agrees(out, l)
}
pub open spec fn agrees(out: Vals, l: Seq<Seq<u8>>) -> bool { forall|j: int| 0 <= j < out.len() ==> (#[trigger] out[j]).0 < l.len() && out[j].1@ == l[out[j].0 as int] }
pub open spec fn distinct(out: Vals) -> bool { forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).0 != (#[trigger] out[j]).0 }
// the first value given for every index, in the order given
pub open spec fn knows<T>(a: Seq<(u64, T)>, i: u64) -> bool { exists|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i }
pub open spec fn firsts(a: Vals) -> Vals decreases a.len() { if a.len() == 0 { a } else { let b = firsts(a.drop_last()); if knows(a.drop_last(), a.last().0) { b } else { b.push(a.last()) } } }
pub proof fn firsts_lead(a: Vals) ensures distinct(firsts(a)), forall|k: int| 0 <= k < firsts(a).len() ==> lead(a, #[trigger] firsts(a)[k]), forall|i: u64| knows(a, i) <==> #[trigger] knows(firsts(a), i) decreases a.len()
{
    if a.len() > 0 {
        let p = a.drop_last(); let x = a.last(); let b = firsts(p); let f = firsts(a); firsts_lead(p);
        assert forall|k: int| 0 <= k < b.len() implies lead(a, #[trigger] b[k]) by { assert(lead(p, b[k])); let m = choose|m: int| 0 <= m < p.len() && #[trigger] p[m] == b[k] && forall|o: int| 0 <= o < m ==> (#[trigger] p[o]).0 != b[k].0; assert(a[m] == b[k]); assert forall|o: int| 0 <= o < m implies (#[trigger] a[o]).0 != b[k].0 by { assert(a[o] == p[o]); } }
        if knows(p, x.0) {
            let m = choose|m: int| 0 <= m < p.len() && (#[trigger] p[m]).0 == x.0;
            assert forall|i: u64| knows(a, i) == #[trigger] knows(f, i) by { if knows(a, i) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i; if k < p.len() { assert(p[k].0 == i); } else { assert(p[m].0 == i); } assert(knows(p, i)); } if knows(f, i) { assert(knows(p, i)); let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == i; assert(a[k].0 == i); } }
        } else {
            assert(lead(a, x)) by { assert(a[a.len() - 1] == x); assert forall|o: int| 0 <= o < a.len() - 1 implies (#[trigger] a[o]).0 != x.0 by { assert(p[o] == a[o]); } }
            assert forall|k: int| 0 <= k < f.len() implies lead(a, #[trigger] f[k]) by { if k < b.len() { assert(f[k] == b[k]); } }
            assert(!knows(b, x.0));
            assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by { assert(f[i] == b[i]); if j < b.len() { assert(f[j] == b[j]); } }
            assert forall|i: u64| knows(a, i) == #[trigger] knows(f, i) by {
                if knows(a, i) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i; if k < p.len() { assert(p[k].0 == i); assert(knows(p, i)); assert(knows(b, i)); let m = choose|m: int| 0 <= m < b.len() && (#[trigger] b[m]).0 == i; assert(f[m].0 == i); } else { assert(f[b.len() as int].0 == i); } }
                if knows(f, i) { let m = choose|m: int| 0 <= m < f.len() && (#[trigger] f[m]).0 == i; if m < b.len() { assert(b[m].0 == i); assert(knows(b, i)); assert(knows(p, i)); let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == i; assert(a[k].0 == i); } else { assert(a[a.len() - 1].0 == i); } }
            }
        }
    }
}
// what a proof of these values attests
pub proof fn attests(a: Vals, l: Leaves, size: u64, it: Seq<H>, n: nat, h: nat)
    requires isnode(size as nat, n, h), entries(a, l), forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 < n, rootof(l, size, it, n) is Some
    ensures in_range(size, rootof(l, size, it, n)->0, firsts(a))
{
    let root = rootof(l, size, it, n)->0; let out = firsts(a); firsts_lead(a);
    assert forall|s: Seq<Seq<u8>>| msize(s.len()) == size && #[trigger] mroot(s.len(), lhs(s)) == root implies agrees(out, s) by {
        assert(isnode(size as nat, s.len(), 0)); node_unique(size as nat, n, h, s.len(), 0); let ls = lhs(s);
        pruns_sound(l, size, it, n, 0, ls);
        assert forall|j: int| 0 <= j < out.len() implies (#[trigger] out[j]).0 < s.len() && out[j].1@ == s[out[j].0 as int] by {
            let x = out[j]; assert(lead(a, x)); let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == x && forall|m: int| 0 <= m < k ==> (#[trigger] a[m]).0 != x.0;
            let i = x.0 as nat; assert(entry(a[k], l[k]));
            assert(lead(l, l[k])) by { assert forall|m: int| 0 <= m < k implies (#[trigger] l[m]).0 != l[k].0 by { assert(entry(a[m], l[m])); let o = a[m].0 as nat; if o < i { lemma_msize_mono(o, i); } else { lemma_msize_mono(i, o); } } }
            assert(l[k].1.hash == val(ls, msize(i)));
            assert(isnode(msize(i), i, 0)); node_is(msize(i), i, 0); lemma2_to64(); assert(val(ls, msize(i)) == ls[i as int]); leafh_inj(x.1@, s[i as int]);
        }
    }
}
pub proof fn knows_push<T>(a: Seq<(u64, T)>, x: (u64, T)) ensures forall|i: u64| #[trigger] knows(a.push(x), i) <==> (knows(a, i) || i == x.0)
{
    assert forall|i: u64| #[trigger] knows(a.push(x), i) <==> (knows(a, i) || i == x.0) by {
        let b = a.push(x); assert(b[a.len() as int] == x);
        if knows(b, i) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == i; if k < a.len() { assert(a[k].0 == i); } }
        if knows(a, i) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i; assert(b[k].0 == i); }
    }
}
impl MmrTreeProof {
//@ fn grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof::mmr_size
  //@ ret r
  //@ spec
    ensures r == self.mmr_size
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof::new
  //@ ret r
  //@ spec
    ensures r.mmr_size == mmr_size, r.leaves == leaves, r.proof_items == proof_items
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof::verify_and_get_root
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ rule for (idx, _) in &self.leaves { $b.. } ==> let mut li: usize = 0; while li < self.leaves.len() { let idx = &self.leaves[li].0; li += 1; $b }
  //@ rule let proof_nodes: Vec<MmrNode> = self.proof_items.iter().map(|hash| $e..).collect(); ==> let mut proof_nodes: Vec<MmrNode> = Vec::new(); let mut hi: usize = 0; while hi < self.proof_items.len() { let hash = &self.proof_items[hi]; proof_nodes.push($e); hi += 1; }
  //@ rule let verification_leaves: Vec<(u64, MmrNode)> = self.leaves.iter().map(|(idx, value)| $e..).collect(); ==> let mut verification_leaves: Vec<(u64, MmrNode)> = Vec::new(); let mut vi: usize = 0; while vi < self.leaves.len() { let idx = &self.leaves[vi].0; let value = &self.leaves[vi].1; verification_leaves.push($e); vi += 1; }
  //@ rule leaf_to_pos ==> leaf_index_to_pos
  //@ rule let root = proof.calculate_root(verification_leaves).map_err($x..)?; ==> let root = match proof.calculate_root(verification_leaves) { Ok(x) => x, Err(_) => return Err(err()) };
  //@ rule BTreeSet::new() ==> Seen::new()
  //@ rule let verified_leaves: Vec<(u64, Vec<u8>)> = self.leaves.iter().filter(|(idx, _)| $c..).cloned().collect(); ==> let mut verified_leaves: Vec<(u64, Vec<u8>)> = Vec::new(); let mut fi: usize = 0; while fi < self.leaves.len() { let idx = &self.leaves[fi].0; if $c { verified_leaves.push(clone_leaf(&self.leaves[fi])); } fi += 1; }
  //@ spec
    ensures r matches Ok(x) ==> self.leaves@.len() > 0 && (x.1)@ == firsts(self.leaves@) && distinct((x.1)@) && in_range(self.mmr_size, x.0, (x.1)@) && root_of_size(self.leaves@, self.mmr_size, self.proof_items@) == Some(x.0),
        // refused only where these values and items give no root
        r is Err ==> self.leaves@.len() == 0 || !in_count(self.leaves@, self.mmr_size) || root_of_size(self.leaves@, self.mmr_size, self.proof_items@) is None
  //@ preloop 1
    let ghost (n, h) = node_of(self.mmr_size as nat);
    proof { assert(isnode(self.mmr_size as nat, n, h)); node_is(self.mmr_size as nat, n, h); lemma2_to64(); lemma_msize_top(n); if n > 0x8000_0000_0000_0000 { lemma_pow2_unfold(64); lemma_msize_add(63, 0); lemma_msize_mono(0x8000_0000_0000_0000, n); } }
  //@ loop 1
    invariant li <= self.leaves@.len(), forall|j: int| 0 <= j < li ==> (#[trigger] self.leaves@[j]).0 < n,
    decreases self.leaves@.len() - li
  //@ loop 2
    invariant hi <= self.proof_items@.len(), proof_nodes@.len() == hi, forall|j: int| 0 <= j < hi ==> (#[trigger] proof_nodes@[j]).hash == self.proof_items@[j],
    decreases self.proof_items@.len() - hi
  //@ loop 3
    invariant vi <= self.leaves@.len(), verification_leaves@.len() == vi, forall|j: int| 0 <= j < vi ==> entry(#[trigger] self.leaves@[j], verification_leaves@[j]) && verification_leaves@[j] == stand1(self.leaves@[j]),
    decreases self.leaves@.len() - vi
  //@ postloop 3
    let ghost given = verification_leaves@;
    proof { assert(hs(proof.proof@) =~= self.proof_items@); assert(given =~= stand(self.leaves@)); }
  //@ preloop 4
    proof { attests(self.leaves@, given, self.mmr_size, self.proof_items@, n, h); firsts_lead(self.leaves@); assert(self.leaves@.take(0) =~= Seq::empty()); }
  //@ loop 4
    invariant fi <= self.leaves@.len(), verified_leaves@ == firsts(self.leaves@.take(fi as int)), forall|i: u64| #[trigger] seen@.contains(i) <==> knows(self.leaves@.take(fi as int), i),
    decreases self.leaves@.len() - fi
  //@ loopstart 4
    let ghost a = self.leaves@.take(fi as int); let ghost b = self.leaves@.take(fi + 1);
    proof { knows_push(a, self.leaves@[fi as int]); assert(b =~= a.push(self.leaves@[fi as int])); assert(b.drop_last() =~= a); }
  //@ postloop 4
    proof { assert(self.leaves@.take(fi as int) =~= self.leaves@); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MmrTreeProof::verify
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ rule for (idx, _) in &self.leaves { $b.. } ==> let mut li: usize = 0; while li < self.leaves.len() { let idx = &self.leaves[li].0; li += 1; $b }
  //@ rule let proof_nodes: Vec<MmrNode> = self.proof_items.iter().map(|hash| $e..).collect(); ==> let mut proof_nodes: Vec<MmrNode> = Vec::new(); let mut hi: usize = 0; while hi < self.proof_items.len() { let hash = &self.proof_items[hi]; proof_nodes.push($e); hi += 1; }
  //@ rule let verification_leaves: Vec<(u64, MmrNode)> = self.leaves.iter().map(|(idx, value)| $e..).collect(); ==> let mut verification_leaves: Vec<(u64, MmrNode)> = Vec::new(); let mut vi: usize = 0; while vi < self.leaves.len() { let idx = &self.leaves[vi].0; let value = &self.leaves[vi].1; verification_leaves.push($e); vi += 1; }
  //@ rule leaf_to_pos ==> leaf_index_to_pos
  //@ rule let valid = proof.verify($a, $b).map_err($x..)?; ==> let valid = match proof.verify($a, $b) { Ok(x) => x, Err(_) => return Err(err()) };
  //@ rule BTreeSet::new() ==> Seen::new()
  //@ rule let verified_leaves: Vec<(u64, Vec<u8>)> = self.leaves.iter().filter(|(idx, _)| $c..).cloned().collect(); ==> let mut verified_leaves: Vec<(u64, Vec<u8>)> = Vec::new(); let mut fi: usize = 0; while fi < self.leaves.len() { let idx = &self.leaves[fi].0; if $c { verified_leaves.push(clone_leaf(&self.leaves[fi])); } fi += 1; }
  //@ spec
    ensures r matches Ok(x) ==> self.leaves@.len() > 0 && x@ == firsts(self.leaves@) && distinct(x@) && in_range(self.mmr_size, *expected_mmr_root, x@) && root_of_size(self.leaves@, self.mmr_size, self.proof_items@) == Some(*expected_mmr_root),
        r is Err ==> self.leaves@.len() == 0 || !in_count(self.leaves@, self.mmr_size) || root_of_size(self.leaves@, self.mmr_size, self.proof_items@) != Some(*expected_mmr_root)
  //@ preloop 1
    let ghost (n, h) = node_of(self.mmr_size as nat);
    proof { assert(isnode(self.mmr_size as nat, n, h)); node_is(self.mmr_size as nat, n, h); lemma2_to64(); lemma_msize_top(n); if n > 0x8000_0000_0000_0000 { lemma_pow2_unfold(64); lemma_msize_add(63, 0); lemma_msize_mono(0x8000_0000_0000_0000, n); } }
  //@ loop 1
    invariant li <= self.leaves@.len(), forall|j: int| 0 <= j < li ==> (#[trigger] self.leaves@[j]).0 < n,
    decreases self.leaves@.len() - li
  //@ loop 2
    invariant hi <= self.proof_items@.len(), proof_nodes@.len() == hi, forall|j: int| 0 <= j < hi ==> (#[trigger] proof_nodes@[j]).hash == self.proof_items@[j],
    decreases self.proof_items@.len() - hi
  //@ loop 3
    invariant vi <= self.leaves@.len(), verification_leaves@.len() == vi, forall|j: int| 0 <= j < vi ==> entry(#[trigger] self.leaves@[j], verification_leaves@[j]) && verification_leaves@[j] == stand1(self.leaves@[j]),
    decreases self.leaves@.len() - vi
  //@ postloop 3
    let ghost given = verification_leaves@;
    proof { assert(hs(proof.proof@) =~= self.proof_items@); assert(given =~= stand(self.leaves@)); }
  //@ preloop 4
    proof { attests(self.leaves@, given, self.mmr_size, self.proof_items@, n, h); firsts_lead(self.leaves@); assert(self.leaves@.take(0) =~= Seq::empty()); }
  //@ loop 4
    invariant fi <= self.leaves@.len(), verified_leaves@ == firsts(self.leaves@.take(fi as int)), forall|i: u64| #[trigger] seen@.contains(i) <==> knows(self.leaves@.take(fi as int), i),
    decreases self.leaves@.len() - fi
  //@ loopstart 4
    let ghost a = self.leaves@.take(fi as int); let ghost b = self.leaves@.take(fi + 1);
    proof { knows_push(a, self.leaves@[fi as int]); assert(b =~= a.push(self.leaves@[fi as int])); assert(b.drop_last() =~= a); }
  //@ postloop 4
    proof { assert(self.leaves@.take(fi as int) =~= self.leaves@); }
//@ end
}
