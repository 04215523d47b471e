// C24: verifying a proof of one tree against a query. merk/src/proofs/query/verify.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
#[derive(Debug)] #[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
//@ include query_item.inc assumed query_item
//@ include merk_tree.inc
//@ include merk_exec.inc assumed merk_tree

// ---- the kind of an element: grovedb-element/src/element_type.rs -----------------------
//@ rules
ElementError::$v($x..) ==> err()
{ println!($x..); } ==>
//@ end
//@ type grovedb-element/src/element_type.rs ElementType
//@ include merk_exact.inc
pub open spec fn simple_type(t: ElementType) -> bool { t is Item || t is SumItem || t is ItemWithSumItem }
impl ElementType {
//@ fn grovedb-element/src/element_type.rs TryFrom<u8> for ElementType::try_from
//@ as from_u8
//@ ret r
//@ vis pub
//@ sig Result<Self, Self::Error> ==> Result<Self, Error>
//@ spec
    ensures r is Ok ==> value <= 14 && simple_type(r->Ok_0) == (value == 0 || value == 3 || value == 9)
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::from_serialized_value
//@ ret r
//@ sig ElementError ==> Error
//@ rule serialized_value.first().ok_or_else(|| $e..)? ==> match slice_first(serialized_value) { Some(x) => x, None => { return Err($e); } }
//@ rule Self::try_from($x..) ==> Self::from_u8($x)
//@ spec
    ensures r is Ok ==> typed(serialized_value@) && simple_type(r->Ok_0) == simple(serialized_value@)
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::has_simple_value_hash
//@ ret r
//@ spec
    ensures r == simple_type(*self)
//@ end
}
pub fn slice_first<'a>(s: &'a [u8]) -> (r: Option<&'a u8>) ensures r is Some <==> s@.len() > 0, r is Some ==> *r->0 == s@[0] { if s.len() > 0 { Some(&s[0]) } else { None } }

// ---- the query, in the direction it is walked ---------------------------------------------
pub open spec fn pb(a: Pt, b: Pt, ltr: bool) -> bool { if ltr { plt(a, b) } else { plt(b, a) } }
pub open spec fn near(i: QueryItem, ltr: bool) -> Pt { if ltr { lo(i) } else { hi(i) } }
pub open spec fn far(i: QueryItem, ltr: bool) -> Pt { if ltr { hi(i) } else { lo(i) } }
pub open spec fn walk(items: Seq<QueryItem>, ltr: bool) -> Seq<QueryItem> { if ltr { items } else { Seq::new(items.len(), |i: int| items[items.len() - 1 - i]) } }
pub open spec fn walked(q: Seq<QueryItem>, ltr: bool) -> bool { (forall|i: int| 0 <= i < q.len() ==> wf(#[trigger] q[i])) && forall|i: int, j: int| 0 <= i < j < q.len() ==> pb(far(#[trigger] q[i], ltr), near(#[trigger] q[j], ltr), ltr) }
pub proof fn lemma_walked(items: Seq<QueryItem>, ltr: bool) requires proper(items) ensures walked(walk(items, ltr), ltr)
{
    let q = walk(items, ltr); let n = items.len() as int;
    assert forall|i: int| 0 <= i < q.len() implies wf(#[trigger] q[i]) by { if !ltr { assert(q[i] == items[n - 1 - i]); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies pb(far(#[trigger] q[i], ltr), near(#[trigger] q[j], ltr), ltr) by { if !ltr { assert(q[i] == items[n - 1 - i] && q[j] == items[n - 1 - j]); } }
}
pub open spec fn selk(q: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|m: int| 0 <= m < q.len() && ini(#[trigger] q[m], Pt::At(k, 0)) }
// Query::directional_iter(..).peekable(): the items from the first to the last, or from the last to the first
pub struct DirIter<'a> { pub items: &'a Vec<QueryItem>, pub pos: usize, pub ltr: bool }
impl<'a> DirIter<'a> {
    pub open spec fn ok(self) -> bool { self.pos <= self.items@.len() }
    pub open spec fn q(self) -> Seq<QueryItem> { walk(self.items@, self.ltr) }
    pub fn new(items: &'a Vec<QueryItem>, ltr: bool) -> (r: Self) ensures r.ok(), r.pos == 0, r.ltr == ltr, r.items == items, r.q() == walk(items@, ltr) { DirIter { items, pos: 0, ltr } }
    pub fn peek(&self) -> (r: Option<&'a QueryItem>) requires self.ok() ensures r is Some <==> self.pos < self.q().len(), r is Some ==> *r->0 == self.q()[self.pos as int]
    { let n = self.items.len(); if self.pos < n { Some(if self.ltr { &self.items[self.pos] } else { &self.items[n - 1 - self.pos] }) } else { None } }
    pub fn next(&mut self) requires old(self).ok() ensures final(self).ok(), final(self).q() == old(self).q(), final(self).ltr == old(self).ltr, final(self).pos == (if old(self).pos < old(self).q().len() { old(self).pos + 1 } else { old(self).pos as int })
    { if self.pos < self.items.len() { self.pos = self.pos + 1; } }
}
#[verifier::external_body] pub fn hash_eq(a: &H, b: &H) -> (r: bool) ensures r == (*a == *b) { a == b }
pub fn s_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == klt(a@, b@) { match cmp_bytes(a, b) { Ordering::Less => true, _ => false } }

// ---- what has been seen and what has been answered -------------------------------------------
//@ type merk/src/proofs/query/verify.rs ProvedKeyOptionalValue
//@ type merk/src/proofs/query/verify.rs ProofVerificationResult
pub open spec fn opq(n: Node) -> bool { node_key(n) is None }
pub open spec fn nkey(n: Node) -> Seq<u8> { node_key(n)->0 }
pub open spec fn nval(n: Node) -> Option<Seq<u8>> {
    match n {
        Node::KV(_, v) => Some(v@), Node::KVValueHash(_, v, _) => Some(v@), Node::KVValueHashFeatureType(_, v, _, _) => Some(v@), Node::KVRefValueHash(_, v, _) => Some(v@),
        Node::KVCount(_, v, _) => Some(v@), Node::KVRefValueHashCount(_, v, _, _) => Some(v@), Node::KVValueHashFeatureTypeWithChildHash(_, v, _, _, _) => Some(v@), _ => None,
    }
}
// the hash reported with a value: for a reference its own hash, otherwise the stored hash
pub open spec fn nproof(n: Node) -> H { match n { Node::KVRefValueHash(_, _, h) => h, Node::KVRefValueHashCount(_, _, h, _) => h, _ => node_vh(n) } }
pub open spec fn nchv(n: Node) -> bool { n is KVValueHashFeatureTypeWithChildHash }
// what is checked of every node by itself
pub open spec fn okn(n: Node, pv: u16) -> bool {
    match n {
        Node::KVValueHash(_, v, _) => pv >= 1 ==> compound(v@), Node::KVValueHashFeatureType(_, v, _, _) => pv >= 1 ==> compound(v@),
        Node::KVValueHashFeatureTypeWithChildHash(_, v, vh, _, c) => (pv >= 1 ==> compound(v@)) && comb(hv(v@), c) == vh, _ => true,
    }
}
pub open spec fn row_of(n: Node, o: ProvedKeyOptionalValue) -> bool { node_key(n) == Some(o.key@) && o.value is Some && nval(n) == Some(o.value->0@) && o.proof == nproof(n) && o.child_hash_verified == nchv(n) }
pub open spec fn nokeyafter(log: Seq<Node>, i: int) -> bool { forall|j: int| i < j < log.len() ==> opq(#[trigger] log[j]) }
// a key that may be below the opaque node i
pub open spec fn hidden_at(log: Seq<Node>, i: int, x: Seq<u8>, ltr: bool) -> bool {
    0 <= i < log.len() && opq(log[i]) && (forall|j: int| 0 <= j < i && !opq(#[trigger] log[j]) ==> bef(nkey(log[j]), x, ltr)) && (forall|j: int| i < j < log.len() && !opq(#[trigger] log[j]) ==> bef(x, nkey(log[j]), ltr))
}
pub open spec fn pending(log: Seq<Node>, q: Seq<QueryItem>, ltr: bool, inr: bool) -> bool { forall|i: int, x: Seq<u8>| #[trigger] hidden_at(log, i, x, ltr) && selk(q, x) ==> nokeyafter(log, i) && !inr }
// the answers are the queried keys shown, in order
pub open spec fn answers(log: Seq<Node>, q: Seq<QueryItem>, out: Seq<ProvedKeyOptionalValue>, idx: Seq<int>) -> bool {
    idx.len() == out.len() && (forall|r: int| 0 <= r < out.len() ==> 0 <= #[trigger] idx[r] < log.len() && row_of(log[idx[r]], out[r]) && selk(q, out[r].key@))
    && (forall|r: int, t: int| 0 <= r < t < idx.len() ==> #[trigger] idx[r] < #[trigger] idx[t])
    && (forall|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && selk(q, nkey(log[j])) ==> exists|r: int| 0 <= r < idx.len() && #[trigger] idx[r] == j)
}
pub open spec fn oks_all(log: Seq<Node>, pv: u16) -> bool { forall|j: int| 0 <= j < log.len() ==> okn(#[trigger] log[j], pv) }
pub struct St<'a> { pub q: DirIter<'a>, pub inr: bool, pub last: Option<Node>, pub lim0: Option<u16>, pub lim: Option<u16>, pub out: Vec<ProvedKeyOptionalValue>, pub ltr: bool, pub pv: u16, pub log: Ghost<Seq<Node>>, pub idx: Ghost<Seq<int>> }
pub struct Fixed { pub q: Seq<QueryItem>, pub lim0: Option<u16>, pub ltr: bool, pub pv: u16 }
pub open spec fn passed(q: Seq<QueryItem>, p: int, k: Option<Seq<u8>>, ltr: bool) -> bool { p > 0 ==> k is Some && forall|i: int| 0 <= i < p ==> !pb(Pt::At(k->0, 0), far(#[trigger] q[i], ltr), ltr) }
impl<'a> St<'a> {
    pub open spec fn base(&self) -> bool { self.q.ok() && self.q.ltr == self.ltr && walked(self.q.q(), self.ltr) && self.last == (if self.log@.len() == 0 { None } else { Some(self.log@.last()) }) && oks_all(self.log@, self.pv) }
    // holds as long as the keys come in order
    pub open spec fn rest(&self) -> bool {
        passed(self.q.q(), self.q.pos as int, last_key(self.log@), self.ltr) && pending(self.log@, self.q.q(), self.ltr, self.inr) && answers(self.log@, self.q.q(), self.out@, self.idx@) && lim_ok(self.lim0, self.lim, self.out@.len() as int)
    }
    // the next key comes after the ones seen
    pub open spec fn next_ok(&self, k: Seq<u8>) -> bool { self.rest() && (last_key(self.log@) is None || bef(last_key(self.log@)->0, k, self.ltr)) && in_order(self.log@, !self.ltr) }
    pub open spec fn fixed(&self) -> Fixed { Fixed { q: self.q.q(), lim0: self.lim0, ltr: self.ltr, pv: self.pv } }
}
pub open spec fn nopend(s: St, k: Seq<u8>) -> bool { forall|i: int, x: Seq<u8>| #[trigger] hidden_at(s.log@, i, x, s.ltr) && bef(x, k, s.ltr) ==> !selk(s.q.q(), x) }
pub open spec fn vv(v: Option<&Vec<u8>>) -> Option<Seq<u8>> { match v { Some(x) => Some(x@), None => None } }
pub open spec fn answered(a: St, b: St, k: Seq<u8>, value: Option<Seq<u8>>, vh: H, chv: bool) -> bool {
    if selk(a.q.q(), k) { value is Some && b.out@.len() == a.out@.len() + 1 && b.out@.drop_last() == a.out@ && ({ let o = b.out@.last(); o.key@ == k && o.value is Some && o.value->0@ == value->0 && o.proof == vh && o.child_hash_verified == chv }) && lim_ok(b.lim0, b.lim, b.out@.len() as int) }
    else { b.out@ == a.out@ && b.lim == a.lim }
}
pub open spec fn self_post(a: St, b: St, k: Seq<u8>, value: Option<Seq<u8>>, vh: H, chv: bool) -> bool { passed(b.q.q(), b.q.pos as int, Some(k), b.ltr) && answered(a, b, k, value, vh, chv) && nopend(a, k) }
pub proof fn lemma_passed(s: St, k: Seq<u8>)
    requires s.base(), s.next_ok(k)
    ensures passed(s.q.q(), s.q.pos as int, Some(k), s.ltr), forall|i: int| 0 <= i < s.q.pos ==> !ini(#[trigger] s.q.q()[i], Pt::At(k, 0))
{ porder(); }
pub proof fn lemma_last_key_at(log: Seq<Node>) requires last_key(log) is Some ensures exists|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && nkey(log[j]) == last_key(log)->0 decreases log.len()
{
    if node_key(log.last()) is Some { assert(!opq(log[log.len() - 1])); }
    else { lemma_last_key_at(log.drop_last()); let j = choose|j: int| 0 <= j < log.drop_last().len() && !opq(#[trigger] log.drop_last()[j]) && nkey(log.drop_last()[j]) == last_key(log.drop_last())->0; assert(log[j] == log.drop_last()[j]); }
}
// a key hidden below an opaque node that no key follows is after every key seen
pub proof fn lemma_tail(log: Seq<Node>, i: int, x: Seq<u8>, ltr: bool) requires hidden_at(log, i, x, ltr), nokeyafter(log, i), last_key(log) is Some ensures bef(last_key(log)->0, x, ltr)
{ lemma_last_key_at(log); let j = choose|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && nkey(log[j]) == last_key(log)->0; if j > i { assert(opq(log[j])); } }
pub proof fn lemma_nopend(s: St, k: Seq<u8>)
    requires s.base(), s.next_ok(k),
        s.inr || s.log@.len() == 0 || !opq(s.log@.last()) || s.q.pos >= s.q.q().len() || !pb(near(s.q.q()[s.q.pos as int], s.ltr), Pt::At(k, 0), s.ltr)
    ensures nopend(s, k)
{
    let log = s.log@; let ltr = s.ltr; let q = s.q.q(); let p = s.q.pos as int; porder(); order();
    assert forall|i: int, x: Seq<u8>| #[trigger] hidden_at(log, i, x, ltr) && bef(x, k, ltr) implies !selk(q, x) by {
        if selk(q, x) {
            let m = choose|m: int| 0 <= m < q.len() && ini(#[trigger] q[m], Pt::At(x, 0));
            assert(nokeyafter(log, i) && !s.inr);
            assert(log.len() > 0);
            if !opq(log.last()) { assert(opq(log[log.len() - 1])); }
            if m < p { lemma_tail(log, i, x, ltr); assert(!pb(Pt::At(last_key(log)->0, 0), far(q[m], ltr), ltr)); assert(false); }
            assert(!pb(near(q[p], ltr), Pt::At(k, 0), ltr));
            if p < m { assert(pb(far(q[p], ltr), near(q[m], ltr), ltr)); assert(wf(q[p])); }
            assert(false);
        }
    }
}
impl<'a> St<'a> {
//@ fn merk/src/proofs/query/verify.rs QueryProofVerify for Query::execute_proof
//@ as execute_node
//@ ret r
//@ vis pub
//@ sig (&self, bytes: &[u8], limit: Option<u16>, left_to_right: bool, proof_version: u16,) -> CostResult<(MerkHash, ProofVerificationResult), Error> ==> (&mut self, key: &Vec<u8>, value: Option<&Vec<u8>>, value_hash: CryptoHash, child_hash_verified: bool) -> Result<(), Error>
//@ rulefirst $a.. let root_wrapped = execute(ops, true, |node| { $b.. }); $c.. Ok((root.hash().unwrap_add_cost(&mut cost), $d..)).wrap_with_cost(cost) ==> $b
//@ rulefirst let mut execute_node = |$p..| -> Result<_, Error> { $b.. }; match node { $c.. } last_push = Some(node.clone()); Ok(()) ==> $b
//@ rule query.peek() ==> self.q.peek()
//@ rule query.next() ==> self.q.next()
//@ rule last_push ==> self.last
//@ rule in_range ==> self.inr
//@ rule current_limit ==> self.lim
//@ rule output.push ==> self.out.push
//@ rule left_to_right ==> self.ltr
//@ rule let query_item = *item; ==> let query_item = item;
//@ rule (lower_bound.expect($m..) > slice_of(key)) ==> s_lt(slice_of(key), some_slice(lower_bound))
//@ rule (upper_bound.expect($m..) < slice_of(key)) ==> s_lt(some_slice(upper_bound), slice_of(key))
//@ rule lower_bound.expect($m..) == slice_of(key) ==> bytes_eq(some_slice(lower_bound), slice_of(key))
//@ rule upper_bound.expect($m..) == slice_of(key) ==> bytes_eq(some_slice(upper_bound), slice_of(key))
//@ rule Some(slice_of(key)) == query_item.lower_bound().0 ==> opt_eq(Some(slice_of(key)), query_item.lower_bound().0)
//@ rule Some(slice_of(key)) == query_item.upper_bound().0 ==> opt_eq(Some(slice_of(key)), query_item.upper_bound().0)
//@ rule Some(slice_of(key)) >= query_item.upper_bound().0 ==> !opt_lt(Some(slice_of(key)), query_item.upper_bound().0)
//@ rule Some(slice_of(key)) <= query_item.lower_bound().0 ==> !opt_gt(Some(slice_of(key)), query_item.lower_bound().0)
//@ spec
    requires old(self).base()
    ensures r is Ok ==> final(self).base() && final(self).fixed() == old(self).fixed() && final(self).log == old(self).log && final(self).last == old(self).last && final(self).idx == old(self).idx,
        r is Ok && old(self).next_ok(key@) ==> self_post(*old(self), *final(self), key@, vv(value), value_hash, child_hash_verified),
//@ at start
    let ghost s0 = *self; let ghost kp = Pt::At(key@, 0); let ghost ok = s0.next_ok(key@); let ghost ltr = s0.ltr;
    proof { porder(); if ok { lemma_passed(s0, key@); if s0.q.pos >= s0.q.q().len() { lemma_nopend(s0, key@); } } }
//@ loop 1
    invariant_except_break self.out@ == s0.out@, self.lim == s0.lim, ok ==> forall|i: int| 0 <= i < self.q.pos ==> !ini(#[trigger] self.q.q()[i], kp), ok ==> (self.q.pos == s0.q.pos && self.inr == s0.inr) || nopend(s0, key@)
    invariant ok == s0.next_ok(key@), ok && s0.q.pos >= s0.q.q().len() ==> nopend(s0, key@), s0.base(), ltr == s0.ltr, kp == Pt::At(key@, 0), ok ==> lim_ok(s0.lim0, s0.lim, s0.out@.len() as int), self.base(), self.fixed() == s0.fixed(), self.log == s0.log, self.last == s0.last, self.idx == s0.idx, ok ==> passed(self.q.q(), self.q.pos as int, Some(key@), ltr)
    ensures ok ==> answered(s0, *self, key@, vv(value), value_hash, child_hash_verified) && nopend(s0, key@)
    decreases self.q.q().len() - self.q.pos
//@ loopstart 1
    let ghost p = self.q.pos as int; let ghost q = self.q.q();
    proof { porder(); order(); lemma_sel(q[p]); assert(wf(q[p])); if ok && !nopend(s0, key@) && s0.inr { lemma_nopend(s0, key@); } }
//@ before if terminate { break; }
    proof { assert(terminate == pb(kp, near(q[p], ltr), ltr)); if ok && terminate { if !nopend(s0, key@) { lemma_nopend(s0, key@); } assert(!selk(q, key@)) by { if selk(q, key@) { let m = choose|m: int| 0 <= m < q.len() && ini(#[trigger] q[m], kp); if m > p { assert(pb(far(q[p], ltr), near(q[m], ltr), ltr)); } } } } }
//@ before if self.ltr { if query_item.upper_bound().0.is_some()
    proof { if ok && !nopend(s0, key@) { lemma_nopend(s0, key@); } assert(ok ==> nopend(s0, key@)); }
//@ before #2 break;
    proof { assert(self.out@.drop_last() =~= s0.out@); if ok { assert(selk(q, key@)); } }
//@ before if query_item.contains(key) {
    proof { assert(self.q.pos == (if !pb(kp, far(q[p], ltr), ltr) { p + 1 } else { p })); assert(q[p] == *query_item); if ok { assert(ini(q[p], kp) ==> selk(q, key@)); } }
//@ end
}

pub open spec fn idx_next(a: St, n: Node) -> Seq<int> { if !opq(n) && selk(a.q.q(), nkey(n)) { a.idx@.push(a.log@.len() as int) } else { a.idx@ } }
pub open spec fn moved(a: St, m: St, n: Node) -> bool {
    if opq(n) { !a.inr && m.q == a.q && m.inr == a.inr && m.out == a.out && m.lim == a.lim } else { a.next_ok(nkey(n)) ==> self_post(a, m, nkey(n), nval(n), nproof(n), nchv(n)) }
}
pub proof fn lemma_prefix(log: Seq<Node>, n: Node, inv: bool) requires in_order(log.push(n), inv) ensures in_order(log, inv), !opq(n) ==> last_key(log) is None || before(last_key(log)->0, nkey(n), inv)
{
    let d = log.push(n);
    assert forall|i: int, j: int| 0 <= i < j < log.len() && node_key(#[trigger] log[i]) is Some && node_key(#[trigger] log[j]) is Some implies before(node_key(log[i])->0, node_key(log[j])->0, inv) by { assert(d[i] == log[i] && d[j] == log[j]); }
    if !opq(n) && last_key(log) is Some { lemma_last_key_at(log); let j = choose|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && nkey(log[j]) == last_key(log)->0; assert(d[j] == log[j]); assert(d[log.len() as int] == n); }
}
pub proof fn lemma_hidden_push(log: Seq<Node>, n: Node, i: int, x: Seq<u8>, ltr: bool)
    requires hidden_at(log.push(n), i, x, ltr)
    ensures i < log.len() ==> hidden_at(log, i, x, ltr) && (!opq(n) ==> bef(x, nkey(n), ltr)), i == log.len() ==> opq(n)
{
    let d = log.push(n); assert(d[log.len() as int] == n);
    if i < log.len() {
        assert(d[i] == log[i]);
        assert forall|j: int| 0 <= j < i && !opq(#[trigger] log[j]) implies bef(nkey(log[j]), x, ltr) by { assert(d[j] == log[j]); }
        assert forall|j: int| i < j < log.len() && !opq(#[trigger] log[j]) implies bef(x, nkey(log[j]), ltr) by { assert(d[j] == log[j]); }
    }
}
pub proof fn lemma_push(a: St, m: St, n: Node)
    requires a.base(), in_order(a.log@, !a.ltr) ==> a.rest(), in_order(a.log@.push(n), !a.ltr), moved(a, m, n), m.fixed() == a.fixed()
    ensures passed(m.q.q(), m.q.pos as int, last_key(a.log@.push(n)), m.ltr), pending(a.log@.push(n), m.q.q(), m.ltr, m.inr), answers(a.log@.push(n), m.q.q(), m.out@, idx_next(a, n)), lim_ok(m.lim0, m.lim, m.out@.len() as int)
{
    let log = a.log@; let d = log.push(n); let q = a.q.q(); let ltr = a.ltr; let ni = idx_next(a, n); let e = log.len() as int;
    lemma_prefix(log, n, !ltr);
    assert(d.drop_last() =~= log); assert(d.last() == n); assert(d[e] == n);
    assert forall|i: int, x: Seq<u8>| #[trigger] hidden_at(d, i, x, ltr) && selk(q, x) implies nokeyafter(d, i) && !m.inr by {
        lemma_hidden_push(log, n, i, x, ltr);
        if i < e { assert(nokeyafter(log, i)); assert forall|j: int| i < j < d.len() implies opq(#[trigger] d[j]) by { if j < e { assert(d[j] == log[j]); } } }
    }
    if opq(n) {} else { assert(a.next_ok(nkey(n))); }
    let out = m.out@;
    assert forall|r: int| 0 <= r < out.len() implies 0 <= #[trigger] ni[r] < d.len() && row_of(d[ni[r]], out[r]) && selk(q, out[r].key@) by {
        if r < a.out@.len() { assert(ni[r] == a.idx@[r]); assert(out[r] == a.out@[r]); assert(d[ni[r]] == log[ni[r]]); }
        else { assert(out[r] == out.last()); assert(ni[r] == e); }
    }
    assert forall|j: int| 0 <= j < d.len() && !opq(#[trigger] d[j]) && selk(q, nkey(d[j])) implies exists|r: int| 0 <= r < ni.len() && #[trigger] ni[r] == j by {
        if j < e { assert(d[j] == log[j]); let r = choose|r: int| 0 <= r < a.idx@.len() && #[trigger] a.idx@[r] == j; assert(ni[r] == j); }
        else { assert(ni[ni.len() - 1] == j); }
    }
    assert forall|r: int, t: int| 0 <= r < t < ni.len() implies #[trigger] ni[r] < #[trigger] ni[t] by { assert(ni[r] == a.idx@[r]); if t < a.idx@.len() { assert(ni[t] == a.idx@[t]); } }
}
impl<'a> Visitor for St<'a> {
    type K = Fixed;
    open spec fn k(&self) -> Fixed { self.fixed() }
    open spec fn seen(&self) -> Seq<Node> { self.log@ }
    open spec fn inv(&self) -> bool { self.base() && (in_order(self.log@, !self.ltr) ==> self.rest()) }
//@ fn merk/src/proofs/query/verify.rs QueryProofVerify for Query::execute_proof
//@ as visit
//@ ret r
//@ vis none
//@ sig (&self, bytes: &[u8], limit: Option<u16>, left_to_right: bool, proof_version: u16,) -> CostResult<(MerkHash, ProofVerificationResult), Error> ==> (&mut self, node: &Node) -> Result<(), Error>
//@ rulefirst $a.. let root_wrapped = execute(ops, true, |node| { $b.. }); $c.. Ok((root.hash().unwrap_add_cost(&mut cost), $d..)).wrap_with_cost(cost) ==> $b
//@ rulefirst let mut execute_node = |$p..| -> Result<_, Error> { $b.. }; ==>
//@ rule execute_node(key, $v.., value_hash(value).unwrap(), $c..)?; ==> execute_node(key, $v, value_hash(slice_of(value)), $c)?;
//@ rule1 execute_node( ==> self.execute_node(
//@ rule ElementType::from_serialized_value(value).map_err(|e| $x..) ==> ElementType::from_serialized_value(slice_of(value))
//@ rule value_hash(value).unwrap() ==> value_hash(slice_of(value))
//@ rule combine_hash($x..).unwrap() ==> combine_hash($x)
//@ rule computed_value_hash != *node_value_hash ==> !hash_eq(&computed_value_hash, node_value_hash)
//@ rule last_push ==> self.last
//@ rule in_range ==> self.inr
//@ rule proof_version ==> self.pv
//@ at start
    let ghost s0 = *self;
//@ after self.last = Some(clone_of(node));
    let ghost m0 = *self; let ghost d = s0.log@.push(*node);
    self.log = Ghost(d);
    self.idx = Ghost(idx_next(s0, *node));
    proof {
        assert(oks_all(d, self.pv)) by { assert forall|j: int| 0 <= j < d.len() implies okn(#[trigger] d[j], self.pv) by { if j < s0.log@.len() { assert(d[j] == s0.log@[j]); } } }
        if in_order(d, !self.ltr) { lemma_push(s0, m0, *node); }
    }
//@ end
}

// ---- the tree a root hash commits to -----------------------------------------------------------
pub enum MT { Nil, Node(Seq<u8>, H, Option<u64>, Box<MT>, Box<MT>) }
pub open spec fn gh(g: MT) -> H decreases g { match g { MT::Nil => zero(), MT::Node(k, vh, c, l, r) => mix(hkv(k, vh), gh(*l), gh(*r), c) } }
pub open spec fn ent(g: MT, k: Seq<u8>, vh: H) -> bool decreases g { match g { MT::Nil => false, MT::Node(k0, v0, c, l, r) => (k == k0 && vh == v0) || ent(*l, k, vh) || ent(*r, k, vh) } }
pub open spec fn bst(g: MT) -> bool decreases g {
    match g { MT::Nil => true, MT::Node(k0, v0, c, l, r) => bst(*l) && bst(*r) && (forall|k: Seq<u8>, vh: H| #[trigger] ent(*l, k, vh) ==> klt(k, k0)) && (forall|k: Seq<u8>, vh: H| #[trigger] ent(*r, k, vh) ==> klt(k0, k)) }
}
// an ordered tree has one entry per key (used by the unit layered)
pub proof fn one_entry(g: MT, k: Seq<u8>, a: H, b: H) requires bst(g), ent(g, k, a), ent(g, k, b) ensures a == b decreases g
{
    match g { MT::Nil => {}, MT::Node(k0, v0, c, l, r) => {
        klt_irr(k0);
        if klt(k, k0) && klt(k0, k) { klt_trans(k, k0, k); klt_irr(k); }
        assert(ent(*l, k, a) ==> klt(k, k0)); assert(ent(*l, k, b) ==> klt(k, k0)); assert(ent(*r, k, a) ==> klt(k0, k)); assert(ent(*r, k, b) ==> klt(k0, k));
        if ent(*l, k, a) { assert(ent(*l, k, b)); one_entry(*l, k, a, b); } else if ent(*r, k, a) { assert(ent(*r, k, b)); one_entry(*r, k, a, b); } else { assert(k == k0); }
    } }
}
// assumed of the hash function: no collisions, no byte string with the all-zero hash; lengths are written self-delimiting
#[verifier::external_body] pub proof fn blake_inj(a: Seq<u8>, b: Seq<u8>) requires blake(a) == blake(b) ensures a == b {}
#[verifier::external_body] pub proof fn blake_nz(a: Seq<u8>) ensures blake(a) != zero() {}
#[verifier::external_body] pub proof fn vi_prefix(m: int, a: Seq<u8>, n: int, b: Seq<u8>) requires 0 <= m, 0 <= n, vi(m) + a == vi(n) + b ensures m == n, a == b {}
#[verifier::external_body] pub proof fn vi_len(n: int) requires 0 <= n ensures n < 128 ==> vi(n).len() == 1, n >= 128 ==> vi(n).len() >= 2 {}
#[verifier::external_body] pub proof fn be8_len(n: u64) ensures be8(n).len() == 8 {}
pub proof fn lemma_arr(a: H, b: H) requires a@ == b@ ensures a == b { assert(a =~= b); }
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) requires a.len() == c.len(), a + b == c + d ensures a == c, b == d
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert((a + b)[i] == a[i]); assert((c + d)[i] == c[i]); }
    assert((a + b).len() == (c + d).len()); assert((c + d).len() == c.len() + d.len());
    assert forall|i: int| 0 <= i < b.len() implies b[i] == d[i] by { assert((a + b)[a.len() + i] == b[i]); assert((c + d)[a.len() + i] == d[i]); }
    assert(a =~= c); assert(b =~= d);
}
pub proof fn lemma_comb(a: H, b: H, c: H, d: H) requires comb(a, b) == comb(c, d) ensures a == c, b == d { blake_inj(a@ + b@, c@ + d@); lemma_cat(a@, b@, c@, d@); lemma_arr(a, c); lemma_arr(b, d); }
pub proof fn lemma_hv(a: Seq<u8>, b: Seq<u8>) requires hv(a) == hv(b) ensures a == b { let m = a.len() as int; let n = b.len() as int; blake_inj(vi(m) + a, vi(n) + b); vi_prefix(m, a, n, b); }
pub proof fn lemma_hv_comb(v: Seq<u8>, a: H, b: H) requires hv(v) == comb(a, b) ensures v.len() == 63 { let m = v.len() as int; blake_inj(vi(m) + v, a@ + b@); vi_len(m); assert((a@ + b@).len() == 64); }
pub proof fn lemma_hkv(k: Seq<u8>, h: H, l: Seq<u8>, g: H) requires hkv(k, h) == hkv(l, g) ensures k == l, h == g
{
    let m = k.len() as int; let n = l.len() as int;
    blake_inj(vi(m) + k + h@, vi(n) + l + g@);
    assert(vi(m) + k + h@ =~= vi(m) + (k + h@)); assert(vi(n) + l + g@ =~= vi(n) + (l + g@));
    vi_prefix(m, k + h@, n, l + g@); lemma_cat(k, h@, l, g@); lemma_arr(h, g);
}
pub open spec fn mixed(kv: H, l: H, r: H, c: Option<u64>) -> Seq<u8> { match c { Some(c) => kv@ + l@ + r@ + be8(c), None => kv@ + l@ + r@ } }
pub proof fn lemma_mix(k1: H, l1: H, r1: H, c1: Option<u64>, k2: H, l2: H, r2: H, c2: Option<u64>) requires mix(k1, l1, r1, c1) == mix(k2, l2, r2, c2) ensures k1 == k2, l1 == l2, r1 == r2
{
    blake_inj(mixed(k1, l1, r1, c1), mixed(k2, l2, r2, c2));
    let t1 = match c1 { Some(c) => { be8_len(c); be8(c) }, None => seq![] }; let t2 = match c2 { Some(c) => { be8_len(c); be8(c) }, None => seq![] };
    assert(mixed(k1, l1, r1, c1) =~= k1@ + (l1@ + (r1@ + t1))); assert(mixed(k2, l2, r2, c2) =~= k2@ + (l2@ + (r2@ + t2)));
    lemma_cat(k1@, l1@ + (r1@ + t1), k2@, l2@ + (r2@ + t2)); lemma_cat(l1@, r1@ + t1, l2@, r2@ + t2); lemma_cat(r1@, t1, r2@, t2);
    lemma_arr(k1, k2); lemma_arr(l1, l2); lemma_arr(r1, r2);
}
pub proof fn lemma_all_bare(s: ST, inv: bool) requires tight(s), s is Node ==> bare(s->Node_0) ensures forall|j: int| 0 <= j < ino(s, inv).len() ==> opq(#[trigger] ino(s, inv)[j]) decreases s
{
    match s { ST::Nil => {}, ST::Node(n, l, r) => {
        lemma_all_bare(*l, inv); lemma_all_bare(*r, inv);
        let a = if inv { ino(*r, inv) } else { ino(*l, inv) }; let b = if inv { ino(*l, inv) } else { ino(*r, inv) }; let log = ino(s, inv); assert(log == a.push(n) + b);
        assert forall|j: int| 0 <= j < log.len() implies opq(#[trigger] log[j]) by { if j < a.len() { assert(log[j] == a[j]); } else if j > a.len() { assert(log[j] == b[j - a.len() - 1]); } }
    } }
}
pub open spec fn shown(log: Seq<Node>, k: Seq<u8>, vh: H) -> bool { exists|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && nkey(log[j]) == k && node_vh(log[j]) == vh }
pub open spec fn hidden(log: Seq<Node>, x: Seq<u8>, ltr: bool) -> bool { exists|i: int| #[trigger] hidden_at(log, i, x, ltr) }
// every key shown is in the tree with that hash, and every key of the tree is shown or below an opaque node in its place
pub open spec fn view_of(log: Seq<Node>, g: MT, ltr: bool) -> bool {
    (forall|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) ==> ent(g, nkey(log[j]), node_vh(log[j]))) && (forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) ==> shown(log, k, vh) || hidden(log, k, ltr))
}
pub proof fn lemma_view(s: ST, g: MT, ltr: bool)
    requires sh(s) == gh(g), tight(s), bst(g)
    ensures view_of(ino(s, !ltr), g, ltr)
    decreases s
{
    match s {
        ST::Nil => { match g { MT::Nil => {}, MT::Node(k, vh, c, l, r) => { blake_nz(mixed(hkv(k, vh), gh(*l), gh(*r), c)); } } }
        ST::Node(n, sl, sr) => {
            let log = ino(s, !ltr);
            if bare(n) {
                lemma_all_bare(s, !ltr);
                assert forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) implies hidden(log, k, ltr) by { assert(log.len() > 0); assert(hidden_at(log, 0, k, ltr)); }
            } else {
                let kv = node_kvh(n); let c = node_count(n);
                blake_nz(mixed(kv, sh(*sl), sh(*sr), c));
                assert(g is Node);
                match g { MT::Nil => {}, MT::Node(gk, gv, gc, gl, gr) => {
                    lemma_mix(kv, sh(*sl), sh(*sr), c, hkv(gk, gv), gh(*gl), gh(*gr), gc);
                    if !opq(n) { lemma_hkv(nkey(n), node_vh(n), gk, gv); }
                    lemma_view(*sl, *gl, ltr); lemma_view(*sr, *gr, ltr);
                    let (s1, s2, g1, g2) = if ltr { (*sl, *sr, *gl, *gr) } else { (*sr, *sl, *gr, *gl) };
                    let a = ino(s1, !ltr); let b = ino(s2, !ltr);
                    assert(log == a.push(n) + b);
                    lemma_join(a, n, b, g, gk, gv, g1, g2, ltr);
                } }
            }
        }
    }
}
pub proof fn lemma_join(a: Seq<Node>, n: Node, b: Seq<Node>, g: MT, gk: Seq<u8>, gv: H, g1: MT, g2: MT, ltr: bool)
    requires view_of(a, g1, ltr), view_of(b, g2, ltr), !opq(n) ==> nkey(n) == gk && node_vh(n) == gv,
        forall|k: Seq<u8>, vh: H| #[trigger] ent(g1, k, vh) ==> bef(k, gk, ltr), forall|k: Seq<u8>, vh: H| #[trigger] ent(g2, k, vh) ==> bef(gk, k, ltr),
        forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) == ((k == gk && vh == gv) || ent(g1, k, vh) || ent(g2, k, vh))
    ensures view_of(a.push(n) + b, g, ltr)
{
    order();
    let log = a.push(n) + b; let e = a.len() as int;
    assert forall|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) implies ent(g, nkey(log[j]), node_vh(log[j])) by { if j < e { assert(log[j] == a[j]); } else if j > e { assert(log[j] == b[j - e - 1]); } }
    assert forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) implies shown(log, k, vh) || hidden(log, k, ltr) by {
        if k == gk && vh == gv {
            assert(log[e] == n);
            if opq(n) {
                assert(hidden_at(log, e, k, ltr)) by {
                    assert forall|j: int| 0 <= j < e && !opq(#[trigger] log[j]) implies bef(nkey(log[j]), k, ltr) by { assert(log[j] == a[j]); }
                    assert forall|j: int| e < j < log.len() && !opq(#[trigger] log[j]) implies bef(k, nkey(log[j]), ltr) by { assert(log[j] == b[j - e - 1]); }
                }
            }
        } else if ent(g1, k, vh) {
            if shown(a, k, vh) { let j = choose|j: int| 0 <= j < a.len() && !opq(#[trigger] a[j]) && nkey(a[j]) == k && node_vh(a[j]) == vh; assert(log[j] == a[j]); }
            else {
                let i = choose|i: int| #[trigger] hidden_at(a, i, k, ltr);
                assert(log[i] == a[i]);
                assert(hidden_at(log, i, k, ltr)) by {
                    assert forall|j: int| 0 <= j < i && !opq(#[trigger] log[j]) implies bef(nkey(log[j]), k, ltr) by { assert(log[j] == a[j]); }
                    assert forall|j: int| i < j < log.len() && !opq(#[trigger] log[j]) implies bef(k, nkey(log[j]), ltr) by { if j < e { assert(log[j] == a[j]); } else if j > e { assert(log[j] == b[j - e - 1]); assert(bef(k, gk, ltr)); assert(ent(g2, nkey(log[j]), node_vh(log[j]))); } else { assert(log[j] == n); } }
                }
            }
        } else {
            if shown(b, k, vh) { let j = choose|j: int| 0 <= j < b.len() && !opq(#[trigger] b[j]) && nkey(b[j]) == k && node_vh(b[j]) == vh; assert(log[e + 1 + j] == b[j]); }
            else {
                let i0 = choose|i: int| #[trigger] hidden_at(b, i, k, ltr); let i = e + 1 + i0;
                assert(log[i] == b[i0]);
                assert(hidden_at(log, i, k, ltr)) by {
                    assert forall|j: int| 0 <= j < i && !opq(#[trigger] log[j]) implies bef(nkey(log[j]), k, ltr) by { if j < e { assert(log[j] == a[j]); assert(bef(gk, k, ltr)); assert(ent(g1, nkey(log[j]), node_vh(log[j]))); } else if j > e { assert(log[j] == b[j - e - 1]); } else { assert(log[j] == n); } }
                    assert forall|j: int| i < j < log.len() && !opq(#[trigger] log[j]) implies bef(k, nkey(log[j]), ltr) by { assert(log[j] == b[j - e - 1]); }
                }
            }
        }
    }
}

// ---- the whole verification -----------------------------------------------------------------------
// the decoder as a source of operations (its exact behaviour is C22), and Iterator::map over it
#[verifier::external_body] pub struct Decoder { x: u8 }
impl Decoder {
    #[verifier::external_body] pub fn new(bytes: &[u8]) -> (r: Self) ensures r.yields() == decoded(bytes@) { unimplemented!() }
    #[verifier::external_body] pub fn all(self) -> (r: Ops) ensures r@ == self.yields() { unimplemented!() }
    #[verifier::external_body] pub fn remaining_bytes(&self) -> (r: usize) { unimplemented!() }
    pub uninterp spec fn yields(&self) -> Seq<Result<Op, Error>>;
    #[verifier::external_body] pub fn mapped(&mut self, left_to_right: bool) -> (r: Ops) ensures r@.len() == old(self).yields().len(), forall|i: int| 0 <= i < r@.len() ==> directed(old(self).yields()[i], #[trigger] r@[i], left_to_right) { unimplemented!() }
}
// the operations in these bytes (C22)
pub uninterp spec fn decoded(b: Seq<u8>) -> Seq<Result<Op, Error>>;
pub open spec fn directed(a: Result<Op, Error>, b: Result<Op, Error>, ltr: bool) -> bool { b is Ok ==> a == b && is_inv(b->Ok_0) == !ltr }
//@ fn merk/src/proofs/query/verify.rs QueryProofVerify for Query::execute_proof
//@ as direct
//@ ret r
//@ sig (&self, bytes: &[u8], limit: Option<u16>, left_to_right: bool, proof_version: u16,) -> CostResult<(MerkHash, ProofVerificationResult), Error> ==> (op: Result<Op, Error>, left_to_right: bool) -> Result<Op, Error>
//@ rulefirst $a.. let ops = decoder.by_ref().map(|op| $b..); let root_wrapped $c.. Ok((root.hash().unwrap_add_cost(&mut cost), $d..)).wrap_with_cost(cost) ==> $b
//@ spec
    ensures directed(op, r, left_to_right)
//@ end
//@ const merk/src/proofs/query/verify.rs PROOF_VERSION_LATEST
pub struct Query { pub items: Vec<QueryItem> }
// the nodes the operations push are the nodes of a tree with this root hash
pub open spec fn shows(s: ST, ops: Seq<Result<Op, Error>>, root: H, inv: bool) -> bool { sh(s) == root && tight(s) && all_ok(ops) && ino(s, inv) == pushes(oks(ops)) }
pub open spec fn whole(ops: Seq<Result<Op, Error>>, root: H) -> bool { exists|s: ST, inv: bool| #[trigger] shows(s, ops, root, inv) }
// the keys of its digest nodes
pub open spec fn digest(n: Node) -> Option<Seq<u8>> { match n { Node::KVDigest(k, _) => Some(k@), Node::KVDigestCount(k, _, _) => Some(k@), _ => None } }
pub open spec fn digests(ops: Seq<Result<Op, Error>>) -> Seq<Seq<u8>> decreases ops.len() {
    if ops.len() == 0 { seq![] } else { let d = digests(ops.drop_last()); let o = ops.last()->Ok_0; if is_push(o) && digest(pushed(o)) is Some { d.push(digest(pushed(o))->0) } else { d } }
}
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
pub fn eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases a@.len() - i { if a[i] != b[i] { return false; } i = i + 1; }
    assert(a@ =~= b@); true
}
//@ fn merk/src/proofs/query/verify.rs key_exists_as_boundary_in_proof
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst for op_result in decoder { $b.. } ==> let mut ops = decoder.all(); let ghost all = ops@; let ghost mut n: int = 0; while !ops.at_end() { let op_result = ops.next(); $b }
//@ rulefirst k.as_slice() == key ==> eq_bytes(k.as_slice(), key)
//@ spec
    ensures r is Ok ==> (r->Ok_0 == digests(decoded(proof_bytes@)).contains(key@)) || r->Ok_0, r == Ok::<bool, Error>(true) ==> exists|n: int| 0 <= n < decoded(proof_bytes@).len() && #[trigger] digest_at(decoded(proof_bytes@), n, key@), r is Ok && !r->Ok_0 ==> all_ok(decoded(proof_bytes@))
//@ loop 1
    invariant 0 <= n <= all.len(), ops@ == all.skip(n), all == decoded(proof_bytes@), all_ok(all.take(n)), !digests(all.take(n)).contains(key@)
    decreases ops@.len()
//@ loopstart 1
    proof { assert(all.skip(n)[0] == all[n]); assert(all.skip(n).drop_first() =~= all.skip(n + 1)); assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); if all[n] is Ok && is_push(all[n]->Ok_0) && digest(pushed(all[n]->Ok_0)) is Some { push_contains(digests(all.take(n)), digest(pushed(all[n]->Ok_0))->0, key@); } if all[n] is Ok && is_push(all[n]->Ok_0) && digest(pushed(all[n]->Ok_0)) == Some(key@) { assert(digest_at(all, n, key@)); } n = n + 1; }
//@ postloop 1
    proof { assert(all.take(n) =~= all); }
//@ end
pub open spec fn digest_at(ops: Seq<Result<Op, Error>>, n: int, k: Seq<u8>) -> bool { ops[n] is Ok && is_push(ops[n]->Ok_0) && digest(pushed(ops[n]->Ok_0)) == Some(k) }
pub proof fn push_contains(s: Seq<Seq<u8>>, x: Seq<u8>, k: Seq<u8>) ensures s.push(x).contains(k) == (s.contains(k) || x == k)
{ assert(s.push(x).last() == x); if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(x)[i] == k); } if s.push(x).contains(k) && x != k { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == k; assert(s[i] == k); } if x == k { assert(s.push(x)[s.len() as int] == k); } }
//@ fn merk/src/proofs/query/verify.rs boundaries_in_proof
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst let mut keys = Vec::new(); ==> let mut keys: Vec<Vec<u8>> = Vec::new();
//@ rulefirst for op_result in decoder { $b.. } ==> let mut ops = decoder.all(); let ghost all = ops@; let ghost mut n: int = 0; while !ops.at_end() { let op_result = ops.next(); $b }
//@ spec
    ensures r is Ok ==> all_ok(decoded(proof_bytes@)) && dv(r->Ok_0@) == digests(decoded(proof_bytes@))
//@ preloop 1
    proof { assert(all.take(0) =~= Seq::empty()); assert(dv(keys@) =~= Seq::empty()); }
//@ loop 1
    invariant 0 <= n <= all.len(), ops@ == all.skip(n), all == decoded(proof_bytes@), all_ok(all.take(n)), dv(keys@) == digests(all.take(n))
    decreases ops@.len()
//@ loopstart 1
    let ghost before = keys@;
    proof { assert(all.skip(n)[0] == all[n]); assert(all.skip(n).drop_first() =~= all.skip(n + 1)); assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); n = n + 1; }
//@ loopend 1
    proof { if keys@ != before { assert(dv(keys@) =~= dv(before).push(keys@.last()@)); } }
//@ postloop 1
    proof { assert(all.take(n) =~= all); }
//@ end
pub proof fn digests_pushed(ops: Seq<Result<Op, Error>>, k: Seq<u8>)
    requires digests(ops).contains(k) ensures exists|j: int| 0 <= j < pushes(oks(ops)).len() && digest(#[trigger] pushes(oks(ops))[j]) == Some(k) decreases ops.len()
{
    if ops.len() > 0 {
        let o = ops.last()->Ok_0; let d = digests(ops.drop_last()); let p = pushes(oks(ops.drop_last())); let all = pushes(oks(ops));
        assert(oks(ops).drop_last() =~= oks(ops.drop_last())); assert(oks(ops).last() == o);
        if is_push(o) && digest(pushed(o)) is Some { push_contains(d, digest(pushed(o))->0, k); }
        if is_push(o) && digest(pushed(o)) == Some(k) { assert(all[p.len() as int] == pushed(o)); }
        else { digests_pushed(ops.drop_last(), k); let j = choose|j: int| 0 <= j < p.len() && digest(#[trigger] p[j]) == Some(k); assert(all[j] == p[j]); }
    }
}
// what an accepted proof with this root hash says
pub open spec fn answered_by(log: Seq<Node>, q: Seq<QueryItem>, out: Seq<ProvedKeyOptionalValue>) -> bool { exists|idx: Seq<int>| #[trigger] answers(log, q, out, idx) }
pub open spec fn nothing_hidden(log: Seq<Node>, q: Seq<QueryItem>, ltr: bool, lim: Option<u16>) -> bool { forall|i: int, x: Seq<u8>| #[trigger] hidden_at(log, i, x, ltr) && selk(q, x) ==> nokeyafter(log, i) && lim == Some(0u16) }
pub open spec fn told(log: Seq<Node>, q: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult) -> bool {
    in_order(log, !ltr) && oks_all(log, pv) && answered_by(log, q, res.result_set@) && lim_ok(limit, res.limit, res.result_set@.len() as int) && nothing_hidden(log, q, ltr, res.limit)
}
pub open spec fn says(s: ST, root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult) -> bool {
    sh(s) == root && tight(s) && told(ino(s, !ltr), walk(items, ltr), limit, ltr, pv, res)
}
pub open spec fn proved(root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult) -> bool { exists|s: ST| #[trigger] says(s, root, items, limit, ltr, pv, res) }
impl Query {
//@ fn merk/src/proofs/query/verify.rs QueryProofVerify for Query::execute_proof
//@ ret r
//@ vis pub
//@ sig CostResult<(MerkHash, ProofVerificationResult), Error> ==> Result<(H, ProofVerificationResult), Error>
//@ rulefirst let mut output = Vec::with_capacity(self.len()); ==> let output_0: Vec<ProvedKeyOptionalValue> = Vec::new();
//@ rulefirst let mut last_push = $e..; ==> let last_0: Option<Node> = $e;
//@ rulefirst let mut query = self.directional_iter(left_to_right).peekable(); ==> let query_0 = DirIter::new(&self.items, left_to_right);
//@ rulefirst let mut in_range = $e..; ==> let in_range_0 = $e;
//@ rulefirst let mut current_limit = $e..; ==> let limit_0: Option<u16> = $e;
//@ rulefirst let ops = decoder.by_ref().map(|op| $b..); ==> let ghost old_yields = decoder.yields(); let mut ops = decoder.mapped(left_to_right); let mut st = St { q: query_0, inr: in_range_0, last: last_0, lim0: original_limit, lim: limit_0, out: output_0, ltr: left_to_right, pv: proof_version, log: Ghost(Seq::empty()), idx: Ghost(Seq::empty()) };
//@ rulefirst let root_wrapped = execute(ops, true, |node| { $b.. }); ==> let root_wrapped = execute(&mut ops, true, &mut st);
//@ rule query.peek() ==> st.q.peek()
//@ rule last_push ==> st.last
//@ rule current_limit ==> st.lim
//@ rule result_set: output ==> result_set: st.out
//@ rule st.lim == Some(0) ==> is_zero(st.lim)
//@ spec
    requires proper(self.items@)
    ensures r is Ok ==> proved(r->Ok_0.0, self.items@, limit, left_to_right, proof_version, r->Ok_0.1),
        r is Ok ==> whole(decoded(bytes@), r->Ok_0.0)
//@ before let root_wrapped = execute
    let ghost ops0 = ops@;
    proof { assert(st.log@.len() == 0); lemma_walked(self.items@, left_to_right); reveal_with_fuel(last_key, 2); assert(st.rest()) by { assert forall|i: int, x: Seq<u8>| #[trigger] hidden_at(st.log@, i, x, st.ltr) && selk(st.q.q(), x) implies false by {} } assert(st.base()); }
//@ before Ok((root.hash(), ProofVerificationResult
    proof {
        let g = oks(ops0); let s = run(g)->0[0]; let log = ino(s, !left_to_right);
        assert(run(g)->0.len() == 1); assert(g.len() > 0) by { if g.len() == 0 { assert(run(g) == Some(Seq::<ST>::empty())); } }
        assert(directed(old_yields[0], ops0[0], left_to_right)); assert(g[0] == ops0[0]->Ok_0);
        assert(st.log@ =~= log);
        let lim1 = st.lim;
        assert forall|i: int, x: Seq<u8>| #[trigger] hidden_at(log, i, x, left_to_right) && selk(st.q.q(), x) implies nokeyafter(log, i) && lim1 == Some(0u16) by {
            if lim1 != Some(0u16) {
                let m = choose|m: int| 0 <= m < st.q.q().len() && ini(#[trigger] st.q.q()[m], Pt::At(x, 0));
                porder();
                if m < st.q.pos { lemma_tail(log, i, x, left_to_right); assert(!pb(Pt::At(last_key(log)->0, 0), far(st.q.q()[m], left_to_right), left_to_right)); }
                assert(!opq(log.last())); assert(opq(log[log.len() - 1]));
            }
        }
        assert(answers(log, walk(self.items@, left_to_right), st.out@, st.idx@));
        let res = ProofVerificationResult { result_set: st.out, limit: st.lim };
        assert(says(s, xh(root), self.items@, limit, left_to_right, proof_version, res));
        assert(proved(xh(root), self.items@, limit, left_to_right, proof_version, res));
        assert(old_yields =~= ops0) by { assert forall|i: int| 0 <= i < ops0.len() implies old_yields[i] == #[trigger] ops0[i] by { assert(directed(old_yields[i], ops0[i], left_to_right)); } }
        assert(shows(s, old_yields, xh(root), !left_to_right));
    }
//@ end
//@ fn merk/src/proofs/query/verify.rs QueryProofVerify for Query::verify_proof
//@ ret r
//@ vis pub
//@ sig CostResult<ProofVerificationResult, Error> ==> Result<ProofVerificationResult, Error>
//@ sig MerkHash ==> H
//@ rule self.execute_proof($x..).map_ok(|($a, $b)| { $c.. }).flatten() ==> match self.execute_proof($x) { Ok(($a, $b)) => { $c } Err(e) => Err(e) }
//@ rule root_hash == expected_hash ==> hash_eq(&root_hash, &expected_hash)
//@ spec
    requires proper(self.items@)
    ensures r is Ok ==> proved(expected_hash, self.items@, limit, left_to_right, PROOF_VERSION_LATEST, r->Ok_0)
//@ end
}
pub fn is_zero(l: Option<u16>) -> (r: bool) ensures r == (l == Some(0u16)) { match l { Some(x) => x == 0, None => false } }

// ---- C24: what a verified answer says about the tree with that root hash ------------------------------
pub proof fn lemma_selected(items: Seq<QueryItem>, k: Seq<u8>, ltr: bool) ensures selected(items, k) == selk(walk(items, ltr), k)
{
    let q = walk(items, ltr); let n = items.len() as int;
    if selected(items, k) { let m = choose|m: int| 0 <= m < items.len() && sel(#[trigger] items[m], k); lemma_sel(items[m]); if ltr { assert(ini(q[m], Pt::At(k, 0))); } else { assert(q[n - 1 - m] == items[m]); } }
    if selk(q, k) { let m = choose|m: int| 0 <= m < q.len() && ini(#[trigger] q[m], Pt::At(k, 0)); if ltr { lemma_sel(items[m]); assert(sel(items[m], k)); } else { lemma_sel(items[n - 1 - m]); assert(sel(items[n - 1 - m], k)); } }
}
pub open spec fn sound_rows(g: MT, items: Seq<QueryItem>, pv: u16, out: Seq<ProvedKeyOptionalValue>) -> bool { forall|r: int| 0 <= r < out.len() ==> selected(items, (#[trigger] out[r]).key@) && in_tree(g, out[r], pv) }
pub open spec fn rows_in_order(ltr: bool, out: Seq<ProvedKeyOptionalValue>) -> bool { forall|r: int, t: int| 0 <= r < t < out.len() ==> bef((#[trigger] out[r]).key@, (#[trigger] out[t]).key@, ltr) }
pub open spec fn all_there(g: MT, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, out: Seq<ProvedKeyOptionalValue>) -> bool { forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) && selected(items, k) ==> returned(out, k) || (limit is Some && out.len() == limit->0 && beyond(out, k, ltr)) }
pub proof fn exact_sound(g: MT, s: ST, root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult)
    requires says(s, root, items, limit, ltr, pv, res), gh(g) == root, bst(g) ensures sound_rows(g, items, pv, res.result_set@)
{
    let log = ino(s, !ltr); let q = walk(items, ltr); let out = res.result_set@;
    let idx = choose|idx: Seq<int>| #[trigger] answers(log, q, out, idx);
    lemma_view(s, g, ltr);
    assert forall|r: int| 0 <= r < out.len() implies selected(items, (#[trigger] out[r]).key@) && in_tree(g, out[r], pv) by {
        let o = out[r]; let j = idx[r]; lemma_selected(items, o.key@, ltr);
        assert(row_of(log[j], o)); assert(!opq(log[j]));
        let vh = node_vh(log[j]); assert(ent(g, o.key@, vh)); assert(okn(log[j], pv));
        match log[j] {
            Node::KVValueHashFeatureTypeWithChildHash(_, v, h, _, c) => { assert(vh == comb(hv(o.value->0@), c)); assert(bound_child(o, vh, pv)); }
            Node::KV(_, _) => { assert(bound_plain(o, vh)); } Node::KVCount(_, _, _) => { assert(bound_plain(o, vh)); }
            Node::KVRefValueHash(_, _, _) => { assert(bound_ref(o, vh)); } Node::KVRefValueHashCount(_, _, _, _) => { assert(bound_ref(o, vh)); }
            _ => { assert(bound_hash_only(o, vh, pv)); }
        }
        assert(vouched(o, vh, pv));
    }
}
pub proof fn exact_order(g: MT, s: ST, root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult)
    requires says(s, root, items, limit, ltr, pv, res), gh(g) == root, bst(g) ensures rows_in_order(ltr, res.result_set@), lim_ok(limit, res.limit, res.result_set@.len() as int)
{
    let log = ino(s, !ltr); let q = walk(items, ltr); let out = res.result_set@;
    let idx = choose|idx: Seq<int>| #[trigger] answers(log, q, out, idx);
    lemma_view(s, g, ltr);
    assert forall|r: int, t: int| 0 <= r < t < out.len() implies bef((#[trigger] out[r]).key@, (#[trigger] out[t]).key@, ltr) by {
        assert(idx[r] < idx[t]); assert(row_of(log[idx[r]], out[r]) && row_of(log[idx[t]], out[t]));
    }
}
pub proof fn exact_all(g: MT, s: ST, root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult)
    requires says(s, root, items, limit, ltr, pv, res), gh(g) == root, bst(g) ensures all_there(g, items, limit, ltr, res.result_set@)
{
    let log = ino(s, !ltr); let q = walk(items, ltr); let out = res.result_set@;
    let idx = choose|idx: Seq<int>| #[trigger] answers(log, q, out, idx);
    lemma_view(s, g, ltr);
    assert forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) && selected(items, k) implies returned(out, k) || (limit is Some && out.len() == limit->0 && beyond(out, k, ltr)) by {
        lemma_selected(items, k, ltr);
        if shown(log, k, vh) {
            let j = choose|j: int| 0 <= j < log.len() && !opq(#[trigger] log[j]) && nkey(log[j]) == k && node_vh(log[j]) == vh;
            let r = choose|r: int| 0 <= r < idx.len() && #[trigger] idx[r] == j;
            assert(row_of(log[idx[r]], out[r])); assert(out[r].key@ == k);
        } else {
            let i = choose|i: int| #[trigger] hidden_at(log, i, k, ltr);
            assert(nokeyafter(log, i) && res.limit == Some(0u16));
            assert forall|r: int| 0 <= r < out.len() implies bef((#[trigger] out[r]).key@, k, ltr) by { let j = idx[r]; assert(row_of(log[j], out[r])); assert(!opq(log[j])); }
        }
    }
}
pub proof fn theorem_exact(g: MT, root: H, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult)
    requires proved(root, items, limit, ltr, pv, res), gh(g) == root, bst(g)
    ensures exact(g, items, limit, ltr, pv, res)
{
    let s = choose|s: ST| #[trigger] says(s, root, items, limit, ltr, pv, res);
    exact_sound(g, s, root, items, limit, ltr, pv, res);
    exact_order(g, s, root, items, limit, ltr, pv, res);
    exact_all(g, s, root, items, limit, ltr, pv, res);
}
// C31: a boundary key of an accepted proof is in the tree with its root hash
pub proof fn theorem_boundary(g: MT, root: H, ops: Seq<Result<Op, Error>>, k: Seq<u8>)
    requires whole(ops, root), gh(g) == root, bst(g), digests(ops).contains(k) ensures exists|vh: H| #[trigger] ent(g, k, vh)
{
    let (s, inv) = choose|s: ST, inv: bool| #[trigger] shows(s, ops, root, inv);
    lemma_view(s, g, !inv); digests_pushed(ops, k); let log = ino(s, inv);
    let j = choose|j: int| 0 <= j < pushes(oks(ops)).len() && digest(#[trigger] pushes(oks(ops))[j]) == Some(k);
    assert(!opq(log[j])); assert(ent(g, nkey(log[j]), node_vh(log[j])));
}
// what is stored under a key: an item, a subtree (or other layer) with the root of what is below, a reference with the value it points to
pub enum Stored { Item(Seq<u8>), Layer(Seq<u8>, H), Ref(Seq<u8>, Seq<u8>) }
pub open spec fn svh(e: Stored) -> H { match e { Stored::Item(v) => hv(v), Stored::Layer(v, below) => comb(hv(v), below), Stored::Ref(v, target) => comb(hv(v), hv(target)) } }
// items are stored as simple elements, the others are not; KF2: 63 stored bytes of an item can pass for two hashes, so they are excluded here
pub open spec fn stored_ok(e: Stored) -> bool { match e { Stored::Item(v) => simple(v) && v.len() != 63, Stored::Layer(v, below) => !simple(v) && forall|x: Seq<u8>| #[trigger] hv(x) != below, Stored::Ref(v, _) => !simple(v) } }
// the returned bytes are the stored ones, or those the reference points to, unless the value hash alone is reported (never for an item)
pub proof fn theorem_value(o: ProvedKeyOptionalValue, e: Stored, pv: u16)
    requires vouched(o, svh(e), pv), pv >= 1, stored_ok(e), (!(e is Item) && bound_plain(o, svh(e))) ==> o.value->0@.len() != 63
    ensures ({ let v = o.value->0@;
        (match e {
            Stored::Item(x) => v == x || (!simple(v) && !o.child_hash_verified), Stored::Layer(x, _) => v == x || (!simple(v) && !o.child_hash_verified),
            Stored::Ref(x, t) => (v == t && o.proof == hv(x)) || v == x || (!simple(v) && !o.child_hash_verified),
        }) && (simple(v) || o.child_hash_verified ==> match e { Stored::Item(x) => v == x, Stored::Layer(x, _) => v == x, Stored::Ref(x, t) => v == t || v == x }) })
{
    let v = o.value->0@; let vh = svh(e);
    if bound_plain(o, vh) { match e { Stored::Item(x) => { lemma_hv(v, x); } Stored::Layer(x, b) => { lemma_hv_comb(v, hv(x), b); } Stored::Ref(x, t) => { lemma_hv_comb(v, hv(x), hv(t)); } } }
    else if bound_ref(o, vh) { match e { Stored::Item(x) => { lemma_hv_comb(x, o.proof, hv(v)); } Stored::Layer(x, b) => { lemma_comb(hv(x), b, o.proof, hv(v)); } Stored::Ref(x, t) => { lemma_comb(hv(x), hv(t), o.proof, hv(v)); lemma_hv(v, t); } } }
    else if bound_child(o, vh, pv) {
        let c = choose|c: H| vh == #[trigger] comb(hv(v), c);
        match e { Stored::Item(x) => { lemma_hv_comb(x, hv(v), c); } Stored::Layer(x, b) => { lemma_comb(hv(x), b, hv(v), c); lemma_hv(v, x); } Stored::Ref(x, t) => { lemma_comb(hv(x), hv(t), hv(v), c); lemma_hv(v, x); } }
    }
}
} // verus!
fn main() {}
