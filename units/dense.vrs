// C04, C05, C06: the dense fixed-sized Merkle tree, its proofs and their verification. grovedb-dense-fixed-sized-merkle-tree/src
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include ctx.inc
//@ include dense_tree.inc
//@ include dense_verify.inc
// ---- the code under contract: proof generation (C06) ----------------------------------
proof fn lemma_asc_len<T>(s: Seq<(u16, T)>, cap: int, k: int)
    requires asc_pos(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < cap, 0 <= k <= s.len(), cap >= 0
    ensures k > 0 ==> s[k - 1].0 >= k - 1, k <= cap decreases k
{ if k > 0 { lemma_asc_len(s, cap, k - 1); if k > 1 { assert(s[k - 2].0 < s[k - 1].0); } assert(s[k - 1].0 < cap); } }
proof fn lemma_exp(l: Seq<u16>, q: u16, n: int)
    requires forall|e: u16| #[trigger] l.contains(e) ==> e < n
    ensures exp(l, q as int) ==> q < n, l.contains(q) ==> exp(l, q as int), exp(l, q as int) && q > 0 ==> exp(l, par(q as int))
{
    if exp(l, q as int) { let e = choose|e: u16| #[trigger] l.contains(e) && anc(q as int, e as int); lemma_anc_le(q as int, e as int); if q > 0 { lemma_anc_trans(par(q as int), q as int, e as int); assert(l.contains(e) && anc(par(q as int), e as int)); } }
    if l.contains(q) { assert(anc(q as int, q as int)); }
}
proof fn lemma_rec(p: DenseTreeProof, vals: Seq<Seq<u8>>, h: u8, l: Seq<u16>, q: int)
    requires honest(p, vals, capacity(h), l), vals.len() <= capacity(h) <= 65535, 0 <= q, forall|e: u16| #[trigger] l.contains(e) ==> e < vals.len(),
        q >= capacity(h) || q >= vals.len() || exp(l, q) || frontier(l, capacity(h), vals.len() as int, q)
    ensures prec(p, q, h, vals.len() as u16) == Some(th(vals, capacity(h), q))
    decreases capacity(h) - q
{
    let cap = capacity(h); let n = vals.len() as int;
    let em = emap(p.entries@); let vm = hmap(p.node_value_hashes@); let hm = hmap(p.node_hashes@);
    if q < cap && q < n {
        let u = q as u16;
        if frontier(l, cap, n, q) { assert(has_pos(p.node_hashes@, u)); let k = idx(p.node_hashes@, u); assert(at_pos(p.node_hashes@, k, u)); }
        else {
            assert(!has_pos(p.node_hashes@, u));
            if l.contains(u) { assert(has_pos(p.entries@, u)); let k = idx(p.entries@, u); assert(at_pos(p.entries@, k, u)); assert(em(u)->0 == vals[q]); }
            else { assert(has_pos(p.node_value_hashes@, u)); assert(!has_pos(p.entries@, u)); let k = idx(p.node_value_hashes@, u); assert(at_pos(p.node_value_hashes@, k, u)); assert(vm(u)->0 == vh(vals[q])); }
            if 2 * q + 1 < cap { assert(par(2 * q + 1) == q); lemma_rec(p, vals, h, l, 2 * q + 1); }
            if 2 * q + 2 < cap { assert(par(2 * q + 2) == q); lemma_rec(p, vals, h, l, 2 * q + 2); }
            assert(prec(p, q, h, n as u16) == rec(q, cap, n, em, vm, hm));
            assert(prec(p, 2 * q + 1, h, n as u16) == rec(2 * q + 1, cap, n, em, vm, hm));
            assert(prec(p, 2 * q + 2, h, n as u16) == rec(2 * q + 2, cap, n, em, vm, hm));
        }
    }
}
// an honest proof is accepted and hashes to the true root
proof fn theorem_complete(p: DenseTreeProof, vals: Seq<Seq<u8>>, h: u8, l: Seq<u16>)
    requires 1 <= h <= 16, honest(p, vals, capacity(h), l), vals.len() <= capacity(h), forall|e: u16| #[trigger] l.contains(e) ==> e < vals.len()
    ensures accepts(p, h, vals.len() as u16), prec(p, 0, h, vals.len() as u16) == Some(th(vals, capacity(h), 0))
{
    lemma_p2(h as nat, 16); lemma_p2(1, h as nat);
    let cap = capacity(h); let n = vals.len() as int;
    if n > 0 { if l.len() > 0 { let e = l[0]; assert(l.contains(e)); lemma_anc_root(e as int); assert(exp(l, 0)); } }
    lemma_rec(p, vals, h, l, 0);
    assert forall|i: int| 0 <= i < p.entries@.len() implies (#[trigger] p.entries@[i]).0 < n by { assert(at_pos(p.entries@, i, p.entries@[i].0)); assert(has_pos(p.entries@, p.entries@[i].0)); }
    assert forall|i: int| 0 <= i < p.node_value_hashes@.len() implies (#[trigger] p.node_value_hashes@[i]).0 < n by { let q = p.node_value_hashes@[i].0; assert(at_pos(p.node_value_hashes@, i, q)); assert(has_pos(p.node_value_hashes@, q)); lemma_exp(l, q, n); }
    assert forall|i: int| 0 <= i < p.node_hashes@.len() implies (#[trigger] p.node_hashes@[i]).0 < cap by { let q = p.node_hashes@[i].0; assert(at_pos(p.node_hashes@, i, q)); assert(has_pos(p.node_hashes@, q)); }
    lemma_asc_len(p.entries@, cap, p.entries@.len() as int); lemma_asc_len(p.node_value_hashes@, cap, p.node_value_hashes@.len() as int); lemma_asc_len(p.node_hashes@, cap, p.node_hashes@.len() as int);
    assert forall|q: u16| !(#[trigger] has_pos(p.entries@, q) && has_pos(p.node_hashes@, q)) by { if has_pos(p.entries@, q) { lemma_exp(l, q, n); } }
    assert forall|a: u16, e: u16| #[trigger] has_pos(p.node_hashes@, a) && #[trigger] has_pos(p.entries@, e) implies !anc(a as int, e as int) by { if anc(a as int, e as int) { assert(l.contains(e)); assert(exp(l, a as int)); } }
}
#[verifier::opaque]
pub open spec fn listed(l: Seq<u16>, list: Seq<u16>, n: int) -> bool { asc(list) && (forall|q: u16| #[trigger] list.contains(q) <==> exp(l, q as int)) && (forall|e: u16| #[trigger] l.contains(e) ==> e < n) && (forall|k: int| 0 <= k < list.len() ==> #[trigger] list[k] < n) }
pub open spec fn push_if(s: Seq<(u16, H)>, c: bool, q: u16, h: H) -> Seq<(u16, H)> { if c { s.push((q, h)) } else { s } }
pub open spec fn upto(list: Seq<u16>, i: int, q: int) -> bool { i >= list.len() || q < list[i] }
#[verifier::opaque]
pub open spec fn inv4(l: Seq<u16>, list: Seq<u16>, i: int, vals: Seq<Seq<u8>>, cap: int, e: Seq<(u16, Vec<u8>)>, v: Seq<(u16, H)>, h: Seq<(u16, H)>) -> bool {
    &&& asc_pos(e) && asc_pos(v) && asc_pos(h)
    &&& forall|k: int| 0 <= k < e.len() ==> upto(list, i, (#[trigger] e[k]).0 as int)
    &&& forall|k: int| 0 <= k < v.len() ==> upto(list, i, (#[trigger] v[k]).0 as int)
    &&& forall|k: int| 0 <= k < h.len() ==> i >= list.len() || (#[trigger] h[k]).0 < 2 * list[i] + 1
    &&& forall|q: u16| #[trigger] has_pos(e, q) <==> l.contains(q) && upto(list, i, q as int)
    &&& forall|q: u16| #[trigger] has_pos(v, q) <==> exp(l, q as int) && !l.contains(q) && upto(list, i, q as int)
    &&& forall|q: u16| #[trigger] has_pos(h, q) <==> frontier(l, cap, vals.len() as int, q as int) && (q == 0 || upto(list, i, par(q as int)))
    &&& forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).1@ == vals[e[k].0 as int]
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).1 == vh(vals[v[k].0 as int])
    &&& forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).1 == th(vals, cap, h[k].0 as int)
}
proof fn lemma_in(l: Seq<u16>, list: Seq<u16>, n: int, q: u16, i: int)
    requires listed(l, list, n), exp(l, q as int) || l.contains(q), 0 <= i < list.len()
    ensures q == list[i] || q < list[i] || (i + 1 < list.len() && q >= list[i + 1]), list.contains(q), q >= list[0], exp(l, q as int)
{
    reveal(listed);
    if l.contains(q) { assert(anc(q as int, q as int)); assert(exp(l, q as int)); }
    assert(list.contains(q));
    let k = choose|k: int| 0 <= k < list.len() && list[k] == q;
    if k > 0 { assert(list[0] < list[k]); }
    if k < i { assert(list[k] < list[i]); } if k > i + 1 { assert(list[i + 1] < list[k]); }
}
proof fn lemma_start(l: Seq<u16>, list: Seq<u16>, vals: Seq<Seq<u8>>, cap: int, e: Seq<(u16, Vec<u8>)>, v: Seq<(u16, H)>, h: Seq<(u16, H)>)
    requires asc(list), forall|q: u16| #[trigger] list.contains(q) <==> exp(l, q as int), forall|x: u16| #[trigger] l.contains(x) ==> x < vals.len(),
        e.len() == 0, v.len() == 0, h =~= (if l.len() == 0 && vals.len() > 0 { seq![(0u16, th(vals, cap, 0))] } else { Seq::empty() })
    ensures listed(l, list, vals.len() as int), inv4(l, list, 0, vals, cap, e, v, h)
{
    reveal(listed); reveal(inv4); let n = vals.len() as int;
    assert forall|k: int| 0 <= k < list.len() implies #[trigger] list[k] < n by { assert(list.contains(list[k])); lemma_exp(l, list[k], n); }
    assert forall|q: u16| exp(l, q as int) || l.contains(q) implies !upto(list, 0, q as int) by {
        if l.contains(q) { assert(anc(q as int, q as int)); assert(exp(l, q as int)); } assert(list.contains(q)); lemma_in(l, list, n, q, 0); }
    assert forall|q: u16| #[trigger] has_pos(h, q) <==> frontier(l, cap, n, q as int) && (q == 0 || upto(list, 0, par(q as int))) by {
        if l.len() == 0 && n > 0 { assert(h == Seq::<(u16, H)>::empty().push((0u16, th(vals, cap, 0)))); lemma_push(Seq::<(u16, H)>::empty(), (0u16, th(vals, cap, 0)), q); }
        if q > 0 && frontier(l, cap, n, q as int) { let u = par(q as int) as u16; assert(exp(l, u as int)); assert(!upto(list, 0, u as int)); }
    }
    if l.len() == 0 { assert(list.len() == 0) by { if list.len() > 0 { assert(list.contains(list[0])); } } }
    assert forall|k: int| 0 <= k < h.len() implies 0 >= list.len() || (#[trigger] h[k]).0 < 2 * list[0] + 1 by {}
}
proof fn lemma_step(l: Seq<u16>, list: Seq<u16>, i: int, vals: Seq<Seq<u8>>, cap: int, e0: Seq<(u16, Vec<u8>)>, v0: Seq<(u16, H)>, h0: Seq<(u16, H)>, e: Seq<(u16, Vec<u8>)>, v: Seq<(u16, H)>, h: Seq<(u16, H)>)
    requires listed(l, list, vals.len() as int), 0 <= i < list.len(), inv4(l, list, i, vals, cap, e0, v0, h0), cap <= 65535, list[i] < vals.len() <= cap,
        l.contains(list[i]) ==> e == e0.push((list[i], e.last().1)) && e.last().1@ == vals[list[i] as int] && v == v0,
        !l.contains(list[i]) ==> e == e0 && v == v0.push((list[i], v.last().1)) && v.last().1 == vh(vals[list[i] as int]),
        h == push_if(push_if(h0, 2 * list[i] + 1 < cap && !exp(l, 2 * list[i] + 1), (2 * list[i] + 1) as u16, th(vals, cap, 2 * list[i] + 1)),
                2 * list[i] + 2 < cap && !exp(l, 2 * list[i] + 2), (2 * list[i] + 2) as u16, th(vals, cap, 2 * list[i] + 2)),
    ensures inv4(l, list, i + 1, vals, cap, e, v, h)
{
    reveal(inv4); let n = vals.len() as int; let x = list[i];
    assert(exp(l, x as int)) by { reveal(listed); assert(list.contains(x)); }
    assert(i + 1 < list.len() ==> list[i] < list[i + 1]) by { reveal(listed); }
    assert forall|q: u16| exp(l, q as int) || l.contains(q) implies (upto(list, i + 1, q as int) <==> upto(list, i, q as int) || q == x) by { lemma_in(l, list, n, q, i); }
    assert forall|q: u16| #[trigger] has_pos(e, q) <==> l.contains(q) && upto(list, i + 1, q as int) by { if l.contains(x) { lemma_push(e0, e.last(), q); } }
    assert forall|q: u16| #[trigger] has_pos(v, q) <==> exp(l, q as int) && !l.contains(q) && upto(list, i + 1, q as int) by { if !l.contains(x) { lemma_push(v0, v.last(), q); } }
    let c1 = 2 * x + 1; let c2 = 2 * x + 2; let b1 = c1 < cap && !exp(l, c1); let b2 = c2 < cap && !exp(l, c2);
    let m = push_if(h0, b1, c1 as u16, th(vals, cap, c1));
    assert forall|q: u16| #[trigger] has_pos(h, q) <==> frontier(l, cap, n, q as int) && (q == 0 || upto(list, i + 1, par(q as int))) by {
        lemma_push(h0, (c1 as u16, th(vals, cap, c1)), q); lemma_push(m, (c2 as u16, th(vals, cap, c2)), q);
        if q > 0 { let u = par(q as int) as u16; assert(u == par(q as int)); if exp(l, u as int) { assert(upto(list, i + 1, u as int) <==> upto(list, i, u as int) || u == x); } assert(u == x <==> q == c1 || q == c2); }
    }
}
//@ include dense_gen.inc
proof fn lemma_push<T>(s: Seq<(u16, T)>, x: (u16, T), q: u16) ensures has_pos(s.push(x), q) <==> has_pos(s, q) || q == x.0
{ let t = s.push(x); if has_pos(t, q) { let i = choose|i: int| at_pos(t, i, q); if i < s.len() { assert(at_pos(s, i, q)); } } if has_pos(s, q) { let i = choose|i: int| at_pos(s, i, q); assert(at_pos(t, i, q)); } if q == x.0 { assert(at_pos(t, s.len() as int, q)); } }
} // verus!
fn main() {}
