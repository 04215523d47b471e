// C02: honest mountain-range proofs. grovedb-merkle-mountain-range/src/mmr.rs, proof.rs
// rlimit: 90
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc assumed mmr_proof
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_proof.inc assumed mmr_proof
//@ include mmr_store.inc assumed mmr_store
// ---- the nodes of one peak, by level: node g of level h has the leaves [g 2^h, (g + 1) 2^h) ----
pub open spec fn endl(g: nat, h: nat) -> nat { (pow2(h) * (g + 1) - 1) as nat }
pub open spec fn np(g: nat, h: nat) -> nat { msize(endl(g, h)) + h }
pub open spec fn kin(g: nat) -> nat { if g % 2 == 1 { (g - 1) as nat } else { g + 1 } }
pub proof fn np_is(g: nat, h: nat) ensures isnode(np(g, h), endl(g, h), h), node(np(g, h)) == (endl(g, h), h), hgt(np(g, h)) == h, endl(g, h) + 1 == pow2(h) * (g + 1)
{ lemma_tz_mul(h, g + 1); assert((endl(g, h) + 1) as nat == (pow2(h) * (g + 1)) as nat); node_is(np(g, h), endl(g, h), h); }
pub proof fn np_kin(g: nat, h: nat) ensures ({ let p = np(g, h); is_right(p, h) == (g % 2 == 1) && sibp(p, h) == np(kin(g), h) && parp(p, h) == np(g / 2, h + 1) })
{
    np_is(g, h); np_is(kin(g), h); np_is(g / 2, h + 1); lemma_tz_mul(h, g + 1); lemma_pow2_unfold(h + 1); lemma_pow2_pos(h); let b = pow2(h); let i = endl(g, h); let p = np(g, h);
    if g % 2 == 1 {
        assert(tz(g + 1) == 1 + tz((g + 1) / 2)); lemma_right(p, i, h);
        assert(b * (g + 1) == b * g + b) by (nonlinear_arith); assert((i - b) as nat == endl((g - 1) as nat, h));
        assert((2 * b) * (g / 2 + 1) == b * (g + 1)) by (nonlinear_arith) requires g % 2 == 1;
    } else {
        assert(tz(g + 1) == 0); lemma_left(p, i, h);
        assert(b * (g + 2) == b * (g + 1) + b) by (nonlinear_arith); assert((i + b) as nat == endl(g + 1, h));
        let s = np(g + 1, h); lemma_tz_mul(h, (g + 2) as nat); assert(tz((g + 2) as nat) == 1 + tz((g + 2) as nat / 2)); np_is(g + 1, h); lemma_right(s, endl(g + 1, h), h);
        assert((2 * b) * (g / 2 + 1) == b * (g + 2)) by (nonlinear_arith) requires g % 2 == 0;
    }
}
pub proof fn np_inj(g: nat, h: nat, k: nat, j: nat) requires np(g, h) == np(k, j) ensures g == k, h == j
{
    np_is(g, h); np_is(k, j); let a = endl(g, h); let b = endl(k, j); assert(h == j && a == b);
    lemma_pow2_pos(h); assert(g == k) by (nonlinear_arith) requires pow2(h) * (g + 1) == pow2(h) * (k + 1), pow2(h) > 0;
}
// the queue: m nodes of level h, then nodes of level h + 1
pub open spec fn lv(m: nat, h: nat, j: int) -> nat { if j < m { h } else { h + 1 } }
pub open spec fn below(hh: nat, h: nat, x: nat, g: nat) -> bool { pow2((hh - h) as nat) * x <= g < pow2((hh - h) as nat) * (x + 1) }
pub open spec fn good(gs: Seq<nat>, m: nat, h: nat, hh: nat, x: nat) -> bool {
    &&& 1 <= m <= gs.len() && h <= hh
    &&& h == hh ==> gs.len() == 1 && gs[0] == x
    &&& h < hh ==> {
        &&& forall|i: int, j: int| 0 <= i < j < m ==> #[trigger] gs[i] < #[trigger] gs[j]
        &&& forall|i: int, j: int| m <= i < j < gs.len() ==> #[trigger] gs[i] < #[trigger] gs[j]
        &&& forall|i: int| 0 <= i < gs.len() ==> below(hh, lv(m, h, i), x, #[trigger] gs[i])
        &&& forall|i: int| m <= i < gs.len() ==> #[trigger] gs[i] < gs[0] / 2
    }
}
pub open spec fn paired(gs: Seq<nat>, m: nat) -> bool { m >= 2 && gs[1] == kin(gs[0]) }
pub open spec fn used(gs: Seq<nat>, m: nat) -> nat { if paired(gs, m) { 2 } else { 1 } }
pub open spec fn gnext(gs: Seq<nat>, m: nat) -> Seq<nat> { gs.skip(used(gs, m) as int).push(gs[0] / 2) }
pub open spec fn mnext(gs: Seq<nat>, m: nat) -> nat { if m <= used(gs, m) { gnext(gs, m).len() } else { (m - used(gs, m)) as nat } }
pub open spec fn hnext(gs: Seq<nat>, m: nat, h: nat) -> nat { if m <= used(gs, m) { h + 1 } else { h } }
// the siblings that have to be given
pub open spec fn feed(gs: Seq<nat>, m: nat, h: nat, hh: nat) -> Seq<nat> decreases (if h < hh { (hh - h) as nat } else { 0 }), m {
    if h >= hh || m == 0 || gs.len() == 0 { Seq::empty() }
    else { (if paired(gs, m) { Seq::empty() } else { seq![np(kin(gs[0]), h)] }) + feed(gnext(gs, m), mnext(gs, m), hnext(gs, m, h), hh) }
}
pub proof fn good_next(gs: Seq<nat>, m: nat, h: nat, hh: nat, x: nat) requires good(gs, m, h, hh, x), h < hh ensures good(gnext(gs, m), mnext(gs, m), hnext(gs, m, h), hh, x), h + 1 == hh ==> hnext(gs, m, h) == hh
{
    let u = used(gs, m) as int; let n = gnext(gs, m); let g = gs[0]; let c = pow2((hh - h) as nat); let d = pow2((hh - h - 1) as nat); lemma_pow2_unfold((hh - h) as nat); lemma_pow2_pos((hh - h - 1) as nat);
    assert(below(hh, lv(m, h, 0), x, gs[0]));
    assert(d * x <= g / 2 < d * (x + 1)) by (nonlinear_arith) requires c * x <= g < c * (x + 1), c == 2 * d;
    lemma2_to64();
    if m <= u {
        let k = n.len(); let h2 = h + 1;
        assert forall|i: int| 0 <= i < n.len() implies below(hh, h2, x, #[trigger] n[i]) by { if i < n.len() - 1 { assert(n[i] == gs[i + u]); assert(lv(m, h, i + u) == h + 1); } }
        assert forall|i: int, j: int| 0 <= i < j < k implies #[trigger] n[i] < #[trigger] n[j] by { assert(n[i] == gs[i + u]); if j < n.len() - 1 { assert(n[j] == gs[j + u]); } }
        if h2 == hh {
            assert(forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == x) by { assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] == x by { assert(below(hh, h2, x, n[i])); let y = n[i]; assert(y == x) by (nonlinear_arith) requires d * x <= y < d * (x + 1), d == 1; } }
            if n.len() > 1 { assert(n[0] < n[1]); }
        } else { assert forall|i: int| 0 <= i < n.len() implies below(hh, lv(k, h2, i), x, #[trigger] n[i]) by { } }
    } else {
        let k = (m - u) as nat;
        assert(n[0] == gs[u]); assert(gs[0] < gs[1]); if u == 2 { assert(gs[1] < gs[2]); } 
        assert(gs[0] / 2 < gs[u] / 2);
        assert forall|i: int| 0 <= i < n.len() implies below(hh, lv(k, h, i), x, #[trigger] n[i]) by { if i < n.len() - 1 { assert(n[i] == gs[i + u]); assert(lv(m, h, i + u) == lv(k, h, i)); } }
        assert forall|i: int, j: int| 0 <= i < j < k implies #[trigger] n[i] < #[trigger] n[j] by { assert(n[i] == gs[i + u]); assert(n[j] == gs[j + u]); }
        assert forall|i: int, j: int| k <= i < j < n.len() implies #[trigger] n[i] < #[trigger] n[j] by { assert(n[i] == gs[i + u]); if j < n.len() - 1 { assert(n[j] == gs[j + u]); } }
        assert forall|i: int| k <= i < n.len() implies #[trigger] n[i] < n[0] / 2 by { if i < n.len() - 1 { assert(n[i] == gs[i + u]); } }
        if h + 1 == hh {
            assert(below(hh, lv(m, h, u), x, gs[u])); let y = gs[u]; assert(c == 2 && d == 1);
            assert(2 * x <= g && y < 2 * (x + 1)) by (nonlinear_arith) requires c * x <= g, y < c * (x + 1), c == 2;
            assert(g == 2 * x && y == g + 1); assert(u == 1); assert(gs[1] == kin(g)); assert(false);
        }
    }
}
pub open spec fn vals(ps: Seq<nat>, ls: Seq<H>) -> Seq<H> { ps.map_values(|p: nat| val(ls, p)) }
pub proof fn vals_cat(a: Seq<nat>, b: Seq<nat>, ls: Seq<H>) ensures vals(a + b, ls) == vals(a, ls) + vals(b, ls) { assert(vals(a + b, ls) =~= vals(a, ls) + vals(b, ls)); }
pub open spec fn vq(gs: Seq<nat>, m: nat, h: nat, ls: Seq<H>) -> Seq<Qe> { Seq::new(gs.len(), |j: int| (np(gs[j], lv(m, h, j)), val(ls, np(gs[j], lv(m, h, j))), lv(m, h, j))) }
// one step of the queue, with the sibling next in it or else given
pub proof fn step_is(gs: Seq<nat>, m: nat, h: nat, hh: nat, x: nat, ls: Seq<H>) requires good(gs, m, h, hh, x), h < hh
    ensures ({ let q = vq(gs, m, h, ls); let n = vq(gnext(gs, m), mnext(gs, m), hnext(gs, m, h), ls); let s = val(ls, np(kin(gs[0]), h)); fromq(q) == paired(gs, m) && q[0].0 < np(x, hh) && parp(q[0].0, q[0].2) <= np(x, hh) && forall|it: Seq<H>| paired(gs, m) || it.len() > 0 && it[0] == s ==> #[trigger] next_q(q, it) == n })
{
    let q = vq(gs, m, h, ls); let g = gs[0]; let g2 = gnext(gs, m); let m2 = mnext(gs, m); let h2 = hnext(gs, m, h); let pk = np(x, hh); let n = vq(g2, m2, h2, ls); let u = used(gs, m) as int; let s = val(ls, np(kin(g), h));
    np_kin(g, h); np_is(g, h); np_is(kin(g), h); family(np(g, h)); good_next(gs, m, h, hh, x); assert(g2.last() == g / 2);
    up_to(gs, m, h, hh, x); up_to(g2, m2, h2, hh, x); assert(lv(m, h, 0) == h && q[0].0 == np(gs[0], h)); assert(np(g2[g2.len() - 1], lv(m2, h2, g2.len() - 1)) <= pk);
    if gs.len() > 1 { if q[1].0 == np(kin(g), h) { np_inj(gs[1], lv(m, h, 1), kin(g), h); } }
    assert(lv(m2, h2, g2.len() - 1) == h + 1);
    assert forall|it: Seq<H>| paired(gs, m) || it.len() > 0 && it[0] == s implies #[trigger] next_q(q, it) == n by {
        let v = next_q(q, it); assert(v.len() == n.len());
        assert forall|j: int| 0 <= j < v.len() implies v[j] == #[trigger] n[j] by { if j < v.len() - 1 { assert(v[j] == q[j + u]); assert(g2[j] == gs[j + u]); assert(lv(m2, h2, j) == lv(m, h, j + u)); } else { assert(v[j] == v.last()); } }
        assert(v =~= n);
    }
}
// the siblings given in this order take the nodes of a peak to its hash
pub proof fn run_done(gs: Seq<nat>, m: nat, h: nat, hh: nat, x: nat, ls: Seq<H>, rest: Seq<H>) requires good(gs, m, h, hh, x)
    ensures run(vq(gs, m, h, ls), vals(feed(gs, m, h, hh), ls) + rest, np(x, hh)) == Some((val(ls, np(x, hh)), rest)) decreases (hh - h), m
{
    let q = vq(gs, m, h, ls); let f = feed(gs, m, h, hh); let it = vals(f, ls) + rest; let pk = np(x, hh);
    if h == hh { assert(it =~= rest); }
    else {
        let g = gs[0]; let g2 = gnext(gs, m); let m2 = mnext(gs, m); let h2 = hnext(gs, m, h); let f2 = feed(g2, m2, h2, hh); let it2 = vals(f2, ls) + rest;
        good_next(gs, m, h, hh, x); run_done(g2, m2, h2, hh, x, ls, rest); step_is(gs, m, h, hh, x, ls);
        if paired(gs, m) { assert(Seq::<nat>::empty() + f2 =~= f2); assert(it == it2); }
        else { vals_cat(seq![np(kin(g), h)], f2, ls); assert(vals(seq![np(kin(g), h)], ls) =~= seq![val(ls, np(kin(g), h))]); assert(it =~= seq![val(ls, np(kin(g), h))] + it2); assert(it.skip(1) =~= it2); assert(it[0] == val(ls, np(kin(g), h))); }
        assert(next_it(q, it) == it2); assert(next_q(q, it) == vq(g2, m2, h2, ls));
        assert(run(q, it, pk) == run(next_q(q, it), it2, pk));
    }
}
// every node in the queue lies at or before the peak
pub proof fn up_to(gs: Seq<nat>, m: nat, h: nat, hh: nat, x: nat) requires good(gs, m, h, hh, x) ensures forall|j: int| 0 <= j < gs.len() ==> np(#[trigger] gs[j], lv(m, h, j)) <= np(x, hh), h < hh ==> forall|j: int| 0 <= j < gs.len() ==> (lv(m, h, j) < hh ==> np(#[trigger] gs[j], lv(m, h, j)) < np(x, hh))
{
    assert forall|j: int| 0 <= j < gs.len() implies np(#[trigger] gs[j], lv(m, h, j)) <= np(x, hh) && (lv(m, h, j) < hh ==> np(gs[j], lv(m, h, j)) < np(x, hh)) by {
        if h < hh {
            let k = lv(m, h, j); let g = gs[j]; assert(below(hh, k, x, g)); lemma_pow2_adds(k, (hh - k) as nat); let b = pow2(k); let d = pow2((hh - k) as nat); lemma_pow2_pos(k); np_is(g, k); np_is(x, hh);
            assert(b * (g + 1) <= pow2(hh) * (x + 1)) by (nonlinear_arith) requires g + 1 <= d * (x + 1), pow2(hh) == b * d, b > 0;
            if endl(g, k) < endl(x, hh) { lemma_msize_mono(endl(g, k), endl(x, hh)); lemma_tz_le(endl(g, k), k, endl(x, hh)); }
        }
    }
}
pub proof fn lemma_tz_le(i: nat, h: nat, n: nat) requires i < n, h <= tz((i + 1) as nat) ensures msize(i) + h < msize(n) { lemma_msize_next(i, n, h); }
// ---- the peaks in order, each over the leaves where the one before ends ----
pub open spec fn px(pk: nat) -> nat { choose|x: nat| #[trigger] np(x, hgt(pk)) == pk }
pub open spec fn whole(pk: nat) -> bool { np(px(pk), hgt(pk)) == pk }
pub open spec fn seat(pk: nat, a: nat) -> bool { whole(pk) && pow2(hgt(pk)) * px(pk) == a }
pub open spec fn tiles(pks: Seq<u64>, a: nat, e: nat) -> bool decreases pks.len() { if pks.len() == 0 { a == e } else { seat(pks[0] as nat, a) && tiles(pks.skip(1), a + pow2(hgt(pks[0] as nat)), e) } }
pub proof fn seat_is(x: nat, h: nat) ensures hgt(np(x, h)) == h, px(np(x, h)) == x, seat(np(x, h), pow2(h) * x)
{ np_is(x, h); let y = px(np(x, h)); assert(np(y, h) == np(x, h)); np_inj(y, h, x, h); }
pub proof fn tile(c: nat, r: nat, k: nat) requires r < pow2(k), msize(pow2(k) * c + r) <= u64::MAX ensures tiles(peaks_from(msize(pow2(k) * c), r, k), pow2(k) * c, pow2(k) * c + r) decreases k
{
    lemma2_to64(); let a = pow2(k) * c; let base = msize(a); let pks = peaks_from(base, r, k);
    if k > 0 {
        let j = (k - 1) as nat; let p = pow2(j); lemma_pow2_unfold(k); lemma_pow2_pos(j);
        assert(a == p * (2 * c)) by (nonlinear_arith) requires a == (2 * p) * c;
        if r >= p {
            assert(p * (2 * c + 1) == a + p) by (nonlinear_arith) requires a == p * (2 * c);
            lemma_pc_mul(k, c, j); lemma_pc_mul(k, c, 0); lemma_pc_mul(j, 2 * c + 1, 0); lemma_msize(a); lemma_msize((a + p - 1) as nat); lemma_msize(a + p);
            assert(pc((2 * c + 1) as nat) == 1 + pc(c)); assert((pow2(j) * (2 * c + 1) + (pow2(0) - 1)) as nat == a + p); assert((pow2(k) * c + (pow2(0) - 1)) as nat == a);
            assert(endl(2 * c, j) == a + p - 1);
            assert(np(2 * c, j) == base + pow2(k) - 2); assert(msize(a + p) == base + pow2(k) - 1);
            if a + p < a + r { lemma_msize_mono(a + p, a + r); }
            seat_is(2 * c, j); assert(pks[0] as nat == np(2 * c, j));
            tile(2 * c + 1, (r - p) as nat, j); assert(pks.skip(1) =~= peaks_from(msize(a + p), (r - p) as nat, j));
            assert(a + p + (r - p) as nat == a + r);
        } else { tile(2 * c, r, j); }
    } else { assert(r == 0); }
}
pub proof fn tile_all(n: nat) requires msize(n) <= u64::MAX ensures tiles(peaks_from(0, n, 64), 0, n)
{ lemma_peak_room(n); lemma2_to64(); assert(pow2(64) * 0 == 0); assert(msize(0) == 0); tile(0, n, 64); }
// ---- positions of leaves ----
pub open spec fn strict(ps: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] ps[i] < #[trigger] ps[j] }
pub open spec fn idx(p: u64) -> nat { node(p as nat).0 }
pub open spec fn leafs(ps: Seq<u64>, a: nat) -> bool { forall|j: int| 0 <= j < ps.len() ==> hgt((#[trigger] ps[j]) as nat) == 0 && idx(ps[j]) >= a }
pub open spec fn idxs(ps: Seq<u64>) -> Seq<nat> { ps.map_values(|p: u64| idx(p)) }
pub open spec fn uptop(ps: Seq<u64>, p: u64) -> nat decreases ps.len() { if ps.len() == 0 || ps[0] > p { 0 } else { 1 + uptop(ps.skip(1), p) } }
pub proof fn uptop_is(ps: Seq<u64>, p: u64, k: int) requires 0 <= k <= ps.len(), forall|j: int| 0 <= j < k ==> #[trigger] ps[j] <= p, k < ps.len() ==> ps[k] > p ensures uptop(ps, p) == k decreases k
{ if k > 0 { let t = ps.skip(1); assert forall|j: int| 0 <= j < k - 1 implies #[trigger] t[j] <= p by { assert(t[j] == ps[j + 1]); } uptop_is(t, p, k - 1); } }
pub proof fn uptop_cuts(ps: Seq<u64>, p: u64) ensures uptop(ps, p) <= ps.len(), forall|j: int| 0 <= j < uptop(ps, p) ==> #[trigger] ps[j] <= p, uptop(ps, p) < ps.len() ==> ps[uptop(ps, p) as int] > p decreases ps.len()
{ if ps.len() > 0 && ps[0] <= p { let t = ps.skip(1); uptop_cuts(t, p); assert forall|j: int| 0 <= j < uptop(ps, p) implies #[trigger] ps[j] <= p by { if j > 0 { assert(ps[j] == t[j - 1]); } } } }
pub proof fn upto_same(l: Leaves, ps: Seq<u64>, p: u64) requires l.len() == ps.len(), forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 == ps[j] ensures upto(l, p) == uptop(ps, p) decreases l.len()
{ if l.len() > 0 && ps[0] <= p { let a = l.skip(1); let b = ps.skip(1); assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).0 == b[j] by { assert(a[j] == l[j + 1]); } upto_same(a, b, p); } }
pub proof fn leaf_pos(p: u64) requires hgt(p as nat) == 0 ensures p as nat == msize(idx(p)), np(idx(p), 0) == p as nat
{ node_some(p as nat); lemma2_to64(); assert(pow2(0) * (idx(p) + 1) == idx(p) + 1) by (nonlinear_arith) requires pow2(0) == 1; }
// the leaves up to a peak are those below it
pub proof fn group(ps: Seq<u64>, pk: u64, a: nat) requires strict(ps), leafs(ps, a), seat(pk as nat, a)
    ensures ({ let k = uptop(ps, pk); k <= ps.len() && (k > 0 ==> good(idxs(ps.take(k as int)), k, 0, hgt(pk as nat), px(pk as nat))) && strict(ps.skip(k as int)) && leafs(ps.skip(k as int), a + pow2(hgt(pk as nat))) })
{
    let k = uptop(ps, pk) as int; let hh = hgt(pk as nat); let x = px(pk as nat); let b = pow2(hh); uptop_cuts(ps, pk); let g = ps.take(k); let gs = idxs(g); let r = ps.skip(k); np_is(x, hh); lemma2_to64(); lemma_pow2_pos(hh);
    let end = endl(x, hh); assert(b * (x + 1) == a + b) by (nonlinear_arith) requires b * x == a; assert(end + 1 == a + b); assert(msize((end + 1) as nat) == msize(end) + 1 + tz((end + 1) as nat));
    assert forall|j: int| 0 <= j < k implies b * x <= #[trigger] gs[j] < b * (x + 1) by { assert(gs[j] == idx(ps[j])); leaf_pos(ps[j]); if gs[j] > end { if gs[j] > end + 1 { lemma_msize_mono((end + 1) as nat, gs[j]); } } }
    assert forall|i: int, j: int| 0 <= i < j < k implies #[trigger] gs[i] < #[trigger] gs[j] by { assert(gs[i] == idx(ps[i]) && gs[j] == idx(ps[j])); leaf_pos(ps[i]); leaf_pos(ps[j]); if gs[j] < gs[i] { lemma_msize_mono(gs[j], gs[i]); } }
    assert forall|j: int| 0 <= j < r.len() implies hgt((#[trigger] r[j]) as nat) == 0 && idx(r[j]) >= a + b by { assert(r[j] == ps[j + k]); leaf_pos(r[j]); let i = idx(r[j]); assert(r[j] > pk); if i < end { lemma_msize_mono(i, end); } }
    if k > 0 && hh == 0 { assert(b * x == x && b * (x + 1) == x + 1) by (nonlinear_arith) requires b == 1; if k > 1 { assert(gs[0] < gs[1]); } assert(gs[0] == x); }
    if k > 0 && hh > 0 { assert forall|i: int| 0 <= i < gs.len() implies below(hh, lv(k as nat, 0, i), x, #[trigger] gs[i]) by { } }
}
// ---- the honest items: siblings for a peak with leaves, the hash of one without, and one for all the peaks past the last leaf ----
pub open spec fn pvals(pks: Seq<u64>, ls: Seq<H>) -> Seq<H> { pks.map_values(|p: u64| val(ls, p as nat)) }
pub open spec fn share(ps: Seq<u64>, pk: u64, ls: Seq<H>) -> Seq<H> { if ps.len() == 0 { seq![val(ls, pk as nat)] } else { vals(feed(idxs(ps), ps.len(), 0, hgt(pk as nat)), ls) } }
pub open spec fn hon(ps: Seq<u64>, pks: Seq<u64>, ls: Seq<H>) -> Seq<H> decreases pks.len() {
    if pks.len() == 0 { Seq::empty() } else if ps.len() == 0 { seq![bag(pvals(pks, ls))] }
    else { let k = uptop(ps, pks[0]) as int; share(ps.take(k), pks[0], ls) + hon(ps.skip(k), pks.skip(1), ls) }
}
// the hashes of the first peaks, and the rest as one
pub open spec fn folded(v: Seq<H>, w: Seq<H>) -> bool { v.len() <= w.len() && (w.len() > 0 ==> v.len() > 0) && (v.len() > 0 ==> v == w.take(v.len() - 1).push(bag(w.skip(v.len() - 1)))) }
pub proof fn bag_folded(v: Seq<H>, w: Seq<H>) requires folded(v, w), w.len() > 0 ensures bag(v) == bag(w) decreases v.len()
{
    if v.len() == 1 { assert(w.skip(0) =~= w); }
    else { let a = v.drop_first(); let b = w.drop_first(); assert(a =~= b.take(a.len() - 1).push(bag(b.skip(a.len() - 1)))) by { assert(b.skip(a.len() - 1) =~= w.skip(v.len() - 1)); } bag_folded(a, b); assert(v[0] == w[0]); }
}
pub proof fn prun_done(l: Leaves, ps: Seq<u64>, pks: Seq<u64>, a: nat, e: nat, ls: Seq<H>)
    requires l.len() == ps.len(), forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 == ps[j], holds(l, ls), strict(ps), leafs(ps, a), forall|j: int| 0 <= j < ps.len() ==> idx(#[trigger] ps[j]) < e, tiles(pks, a, e)
    ensures prun(l, pks, hon(ps, pks, ls), true) is Some, folded(prun(l, pks, hon(ps, pks, ls), true)->0, pvals(pks, ls)) decreases pks.len()
{
    let it = hon(ps, pks, ls); let w = pvals(pks, ls);
    if pks.len() == 0 { if ps.len() > 0 { assert(idx(ps[0]) < e); } assert(it.len() == 0); assert(prun(l, pks, it, true) == Some(Seq::<H>::empty())); }
    else {
        let pk = pks[0]; upto_same(l, ps, pk); let k = upto(l, pk) as int; uptop_cuts(ps, pk); group(ps, pk, a); let g = l.take(k);
        if l.len() == 0 {
            assert(g =~= Seq::empty()); assert(it.skip(1).len() == 0); let v = prun(l, pks, it, true)->0; assert(v == seq![bag(w)]); assert(w.skip(0) =~= w); assert(v =~= w.take(0).push(bag(w.skip(0))));
        } else {
            let pg = ps.take(k); let rl = l.skip(k); let rp = ps.skip(k); let it2 = hon(rp, pks.skip(1), ls); let sh = share(pg, pk, ls); assert(it == sh + it2);
            assert(one(g, pk, it) == Some((val(ls, pk as nat), it2))) by {
                if k == 0 { assert(it.skip(1) =~= it2); assert(it[0] == val(ls, pk as nat)); }
                else {
                    let gs = idxs(pg); let hh = hgt(pk as nat); let x = px(pk as nat);
                    run_done(gs, k as nat, 0, hh, x, ls, it2);
                    assert(lq(g) =~= vq(gs, k as nat, 0, ls)) by { assert forall|j: int| 0 <= j < k implies lq(g)[j] == #[trigger] vq(gs, k as nat, 0, ls)[j] by { assert(g[j] == l[j]); assert(pg[j] == ps[j]); leaf_pos(ps[j]); assert(l[j].1.hash == val(ls, l[j].0 as nat)); } }
                    if g.len() == 1 && g[0].0 == pk { assert(g[0] == l[0]); assert(hh == 0); assert(sh =~= Seq::empty()); assert(it =~= it2); }
                }
            }
            assert forall|j: int| 0 <= j < rl.len() implies (#[trigger] rl[j]).0 == rp[j] by { assert(rl[j] == l[j + k]); }
            assert(holds(rl, ls)) by { assert forall|j: int| 0 <= j < rl.len() implies (#[trigger] rl[j]).1.hash == val(ls, rl[j].0 as nat) by { assert(rl[j] == l[j + k]); } }
            assert forall|j: int| 0 <= j < rp.len() implies idx(#[trigger] rp[j]) < e by { assert(rp[j] == ps[j + k]); }
            prun_done(rl, rp, pks.skip(1), a + pow2(hgt(pk as nat)), e, ls);
            let v2 = prun(rl, pks.skip(1), it2, true)->0; let v = seq![val(ls, pk as nat)] + v2; assert(prun(l, pks, it, true) == Some(v)); let w2 = pvals(pks.skip(1), ls); assert(w2 =~= w.skip(1));
            if v2.len() > 0 { assert(w2.skip(v2.len() - 1) =~= w.skip(v.len() - 1)); assert(v =~= w.take(v.len() - 1).push(bag(w.skip(v.len() - 1)))); }
            else { assert(w.len() == 1); assert(w.skip(0) =~= w); assert(bag(w) == w[0]); assert(v =~= w.take(0).push(bag(w.skip(0)))); }
        }
    }
}
// ---- trusted: sorting by position orders, and so does dropping repeated neighbours then order strictly ----
pub open spec fn rising(a: Leaves) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 <= (#[trigger] a[j]).0 }
pub axiom fn std_sort_order(a: Leaves) ensures rising(sorted(a));
pub axiom fn std_once_order(a: Leaves) requires rising(a) ensures strict(keys(once(a)));
pub open spec fn keys(a: Leaves) -> Seq<u64> { a.map_values(|x: (u64, MmrNode)| x.0) }
pub uninterp spec fn sortedp(a: Seq<u64>) -> Seq<u64>;
pub uninterp spec fn oncep(a: Seq<u64>) -> Seq<u64>;
pub open spec fn risingp(a: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] <= #[trigger] a[j] }
pub axiom fn std_sortp(a: Seq<u64>) ensures risingp(sortedp(a)), forall|x: u64| #[trigger] sortedp(a).contains(x) <==> a.contains(x);
pub axiom fn std_oncep(a: Seq<u64>) ensures risingp(a) ==> strict(oncep(a)), forall|x: u64| #[trigger] oncep(a).contains(x) <==> a.contains(x);
#[verifier::external_body] pub fn sort_positions(v: &mut Vec<u64>) ensures final(v)@ == sortedp(old(v)@) { v.sort_unstable() }
#[verifier::external_body] pub fn dedup_positions(v: &mut Vec<u64>) ensures final(v)@ == oncep(old(v)@) { v.dedup() }
pub open spec fn asc(a: Seq<u64>) -> Seq<u64> { oncep(sortedp(a)) }
pub proof fn asc_is(a: Seq<u64>) ensures strict(asc(a)), forall|x: u64| #[trigger] asc(a).contains(x) <==> a.contains(x)
{ std_sortp(a); std_oncep(sortedp(a)); assert forall|x: u64| #[trigger] asc(a).contains(x) implies a.contains(x) by { assert(sortedp(a).contains(x)); } assert forall|x: u64| a.contains(x) implies #[trigger] asc(a).contains(x) by { assert(sortedp(a).contains(x)); } }
pub proof fn strict_same(a: Seq<u64>, b: Seq<u64>) requires strict(a), strict(b), forall|x: u64| #[trigger] a.contains(x) <==> b.contains(x) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a[0])); assert(b.contains(a[0])); assert(b.contains(b[0])); assert(a.contains(b[0]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0]; let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        if i > 0 { assert(a[0] < a[i]); } if j > 0 { assert(b[0] < b[j]); } assert(a[0] == b[0]);
        let c = a.skip(1); let d = b.skip(1);
        assert forall|x: u64| #[trigger] c.contains(x) <==> d.contains(x) by {
            if c.contains(x) { let k = choose|k: int| 0 <= k < c.len() && c[k] == x; assert(a[k + 1] == x); assert(a.contains(x)); assert(a[0] < a[k + 1]); let m = choose|m: int| 0 <= m < b.len() && b[m] == x; assert(d[m - 1] == x); }
            if d.contains(x) { let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(b[k + 1] == x); assert(b.contains(x)); assert(b[0] < b[k + 1]); assert(a.contains(x)); let m = choose|m: int| 0 <= m < a.len() && a[m] == x; assert(c[m - 1] == x); }
        }
        strict_same(c, d); assert(a =~= seq![a[0]] + c); assert(b =~= seq![b[0]] + d);
    }
}
pub proof fn lead_of(l: Leaves, p: u64) -> (x: (u64, MmrNode)) requires knows(l, p) ensures lead(l, x), x.0 == p decreases l.len()
{
    let d = l.drop_last();
    if knows(d, p) { let x = lead_of(d, p); let m = choose|m: int| 0 <= m < d.len() && #[trigger] d[m] == x && forall|o: int| 0 <= o < m ==> (#[trigger] d[o]).0 != x.0; assert(l[m] == x); assert forall|o: int| 0 <= o < m implies (#[trigger] l[o]).0 != x.0 by { assert(l[o] == d[o]); } x }
    else { let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 == p; if k < d.len() { assert(d[k].0 == p); } assert(l[k] == l.last()); assert forall|o: int| 0 <= o < k implies (#[trigger] l[o]).0 != p by { assert(d[o] == l[o]); } l.last() }
}
// what the verifier works on: the same positions as the prover
pub proof fn same_keys(l: Leaves) ensures keys(once(sorted(l))) == asc(keys(l))
{
    std_sort(l); std_once(sorted(l)); std_sort_order(l); std_once_order(sorted(l)); let t = once(sorted(l)); asc_is(keys(l)); let kt = keys(t); let kl = keys(l);
    assert forall|x: u64| #[trigger] kt.contains(x) <==> asc(kl).contains(x) by {
        if kt.contains(x) { let i = choose|i: int| 0 <= i < kt.len() && kt[i] == x; assert(t.contains(t[i])); assert(sorted(l).contains(t[i])); assert(l.contains(t[i])); let j = choose|j: int| 0 <= j < l.len() && l[j] == t[i]; assert(kl[j] == x); assert(kl.contains(x)); }
        if kl.contains(x) { let i = choose|i: int| 0 <= i < kl.len() && kl[i] == x; assert(l[i].0 == x); let y = lead_of(l, x); assert(lead(sorted(l), y)); assert(lead(t, y)); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == y; assert(kt[j] == x); }
    }
    strict_same(kt, asc(kl));
}
// the honest items take true leaves to the root
pub open spec fn honest(ps: Seq<u64>, n: nat, ls: Seq<H>) -> Seq<H> { hon(asc(ps), peaks_from(0, n, 64), ls) }
pub proof fn accepts(l: Leaves, size: u64, n: nat, ls: Seq<H>)
    requires msize(n) == size, l.len() > 0, flat(l), holds(l, ls), forall|j: int| 0 <= j < l.len() ==> idx((#[trigger] l[j]).0) < n
    ensures rootof(l, size, honest(keys(l), n, ls), n) == Some(mroot(n, ls))
{
    let pks = peaks_from(0, n, 64); let it = honest(keys(l), n, ls); let w = peak_vals(n, ls);
    assert(isnode(msize(n), n, 0)); lemma_msize_top(n); lemma2_to64(); lemma_peak_room(n);
    assert(idx(l[0].0) < n); peaks_some(0, n, 64); assert(w =~= pvals(pks, ls));
    if size == 1 && l.len() == 1 && l[0].0 == 0 {
        assert(msize(1) == 1) by { assert(tz(1) == 0); assert(msize(0) == 0); } lemma_msize_inj(n, 1);
        lemma_peaks_k(0, 1, 1, 64); lemma_peaks_zero(1, 0); assert(peaks_from(0, 1, 1) =~= seq![0u64]); assert(w =~= seq![val(ls, 0)]);
    } else {
        let t = once(sorted(l)); std_sort(l); std_once(sorted(l)); same_keys(l); let ps = keys(t); asc_is(keys(l)); tile_all(n);
        assert forall|j: int| 0 <= j < t.len() implies l.contains(#[trigger] t[j]) by { assert(t.contains(t[j])); assert(sorted(l).contains(t[j])); }
        assert(holds(t, ls)) by { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).1.hash == val(ls, t[j].0 as nat) by { assert(l.contains(t[j])); } }
        assert(leafs(ps, 0)) by { assert forall|j: int| 0 <= j < ps.len() implies hgt((#[trigger] ps[j]) as nat) == 0 by { assert(l.contains(t[j])); } }
        assert forall|j: int| 0 <= j < ps.len() implies idx(#[trigger] ps[j]) < n by { assert(l.contains(t[j])); }
        assert(t.len() > 0) by { assert(keys(l)[0] == l[0].0); assert(keys(l).contains(l[0].0)); assert(ps.contains(l[0].0)); }
        prun_done(t, ps, pks, 0, n, ls); bag_folded(prun(t, pks, it, true)->0, w);
    }
}
// ---- the prover ----
#[verifier::external_body] pub struct PQueue { x: u8 }
impl PQueue {
    pub uninterp spec fn view(&self) -> Seq<(u64, u8)>;
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<(u64, u8)>) ensures r is None ==> old(self)@.len() == 0 && final(self)@ == old(self)@, r is Some ==> old(self)@.len() > 0 && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, x: (u64, u8)) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn front_at(&self, p: u64) -> (r: bool) ensures r == (self@.len() > 0 && self@[0].0 == p) { unimplemented!() }
}
#[verifier::external_body] pub fn pqueue_of(v: Vec<u64>) -> (r: PQueue) ensures r@ == v@.map_values(|x: u64| (x, 0u8)) { unimplemented!() }
pub fn only(v: &Vec<u64>, x: u64) -> (r: bool) ensures r == (v@ =~= seq![x]) { v.len() == 1 && v[0] == x }
pub open spec fn queued(q: Seq<(u64, u8)>, gs: Seq<nat>, m: nat, h: nat, hh: nat) -> bool { if h == hh { q.len() == 0 } else { q.len() == gs.len() && forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).0 as nat == np(gs[j], lv(m, h, j)) && q[j].1 as nat == lv(m, h, j) } }
// what is looked up lies in the range of the peak
pub proof fn kin_within(g: nat, h: nat, hh: nat, x: nat) requires h < hh, below(hh, h, x, g) ensures below(hh, h, x, kin(g)), np(kin(g), h) < np(x, hh), np(g, h) < np(x, hh), np(g / 2, h + 1) <= np(x, hh), h + 1 < hh ==> np(g / 2, h + 1) < np(x, hh), h + 1 == hh ==> g / 2 == x
{
    let c = pow2((hh - h) as nat); let d = pow2((hh - h - 1) as nat); lemma_pow2_unfold((hh - h) as nat); lemma_pow2_pos((hh - h - 1) as nat); let k = kin(g); lemma2_to64();
    let dx = d * x; let dy = d * (x + 1); assert(c * x == 2 * dx && c * (x + 1) == 2 * dy) by (nonlinear_arith) requires c == 2 * d, dx == d * x, dy == d * (x + 1); assert(c * x <= k < c * (x + 1));
    assert(d * x <= g / 2 < d * (x + 1)) by (nonlinear_arith) requires c * x <= g < c * (x + 1), c == 2 * d;
    let a = seq![g]; let b = seq![k]; let e = seq![g / 2];
    assert(good(a, 1, h, hh, x)); assert(good(b, 1, h, hh, x)); up_to(a, 1, h, hh, x); up_to(b, 1, h, hh, x); assert(a[0] == g && b[0] == k && lv(1, h, 0) == h);
    if h + 1 == hh { assert(g / 2 == x) by (nonlinear_arith) requires d * x <= g / 2 < d * (x + 1), d == 1; }
    else { assert(good(e, 1, h + 1, hh, x)); up_to(e, 1, h + 1, hh, x); assert(e[0] == g / 2 && lv(1, h + 1, 0) == h + 1); }
}
impl<S: MMRStoreReadOps> MMR<S> {
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::gen_proof_for_peak
  //@ sig cost: &mut OperationCost, ==> 
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ attr #[verifier::allow_complex_invariants]
  //@ rule pos_list == [peak_pos] ==> only(&pos_list, peak_pos)
  //@ rule proof.push(elem?.ok_or(err())?); ==> match elem { Ok(Some(e)) => { proof.push(e); } Ok(None) => { return Err(err()); } Err(e) => { return Err(e); } }
  //@ rule let mut queue: VecDeque<_> = pos_list.into_iter().map(|pos| (pos, 0)).collect(); ==> let mut queue = pqueue_of(pos_list);
  //@ rule while let Some(($a, $b)) = queue.pop_front() { $d.. } ==> loop { let ($a, $b) = match queue.pop_front() { Some(x) => x, None => break }; $d }
  //@ rule debug_assert!($x..); ==> 
  //@ rule Some(&sib_pos) == queue.front().map(|(pos, _)| pos) ==> queue.front_at(sib_pos)
  //@ spec
    requires exists|l: Seq<MmrNode>| #[trigger] self.of(l), whole(peak_pos as nat), peak_pos < self.mmr_size, pos_list@.len() > 0 ==> good(idxs(pos_list@), pos_list@.len(), 0, hgt(peak_pos as nat), px(peak_pos as nat)), forall|j: int| 0 <= j < pos_list@.len() ==> hgt((#[trigger] pos_list@[j]) as nat) == 0
    ensures forall|l: Seq<MmrNode>| #[trigger] self.of(l) ==> match r { Ok(_) => hs(final(proof)@) == hs(old(proof)@) + share(pos_list@, peak_pos, hs(l)), Err(_) => !self.batch.store.reliable() }
  //@ at start
    let ghost l = choose|l: Seq<MmrNode>| #[trigger] self.of(l); let ghost n = l.len(); let ghost ls = hs(l); let ghost pk = peak_pos as nat; let ghost hh = hgt(pk); let ghost x = px(pk); let ghost ps = pos_list@; let ghost p0 = hs(proof@); let ghost mut gs = idxs(ps); let ghost mut m: nat = ps.len(); let ghost mut h: nat = 0; let ghost f0 = feed(gs, m, 0, hh);
    proof { assert forall|k: Seq<MmrNode>| #[trigger] self.of(k) implies k == l by { of_unique(self, l, k); } self.of_cap(l); assert(self.batch.seen(pk) is Some); if ps.len() == 1 && ps[0] == peak_pos { assert(p0 + share(ps, peak_pos, ls) =~= p0); } }
  //@ after #1 proof.push(e);
    proof { assert(hs(proof@) =~= p0 + seq![val(ls, pk)]); }
  //@ preloop 1
    proof {
        if hh == 0 { leaf_pos(ps[0]); assert(gs[0] == x); lemma2_to64(); assert(pow2(0) * (x + 1) == x + 1) by (nonlinear_arith) requires pow2(0) == 1; assert(ps =~= seq![peak_pos]); assert(false); }
        assert forall|j: int| 0 <= j < ps.len() implies #[trigger] ps[j] as nat == np(gs[j], 0) by { leaf_pos(ps[j]); }
        assert(queued(queue@, gs, m, h, hh));
    }
  //@ loop 1
    invariant good(gs, m, h, hh, x), queued(queue@, gs, m, h, hh), hs(proof@) + vals(feed(gs, m, h, hh), ls) == p0 + vals(f0, ls),
    ensures hs(proof@) == p0 + vals(f0, ls)
    decreases hh - h, m
  //@ loopstart 1
    let ghost q = queue@; let ghost pr = hs(proof@); let ghost f = feed(gs, m, h, hh);
    proof { if h == hh { assert(vals(f, ls) =~= Seq::<H>::empty()); assert(pr + vals(f, ls) =~= pr); } }
  //@ before if pos == peak_pos
    let ghost g = gs[0]; let ghost u = used(gs, m) as int; let ghost g2 = gnext(gs, m); let ghost m2 = mnext(gs, m); let ghost h2 = hnext(gs, m, h); let ghost f2 = feed(g2, m2, h2, hh);
    proof {
        assert(q[0] == (pos, height)); assert(below(hh, lv(m, h, 0), x, gs[0])); kin_within(g, h, hh, x); np_kin(g, h); np_is(g, h); np_is(kin(g), h); np_is(x, hh); family(pos as nat); node_some((pos + 1) as nat); good_next(gs, m, h, hh, x);
        if gs.len() > 1 { assert(q[1].0 as nat == np(gs[1], lv(m, h, 1))); if q[1].0 as nat == np(kin(g), h) { np_inj(gs[1], lv(m, h, 1), kin(g), h); } }
        assert(q.skip(1).len() > 0 ==> q.skip(1)[0] == q[1]);
        if !paired(gs, m) { vals_cat(seq![np(kin(g), h)], f2, ls); assert(vals(seq![np(kin(g), h)], ls) =~= seq![val(ls, np(kin(g), h))]); assert(pr + (seq![val(ls, np(kin(g), h))] + vals(f2, ls)) =~= pr.push(val(ls, np(kin(g), h))) + vals(f2, ls)); } else { assert(Seq::<nat>::empty() + f2 =~= f2); }
        assert(np(kin(g), h) < msize(n)); assert(self.batch.seen(np(kin(g), h)) is Some);
    }
  //@ after #2 proof.push(e);
    proof { assert(hs(proof@) =~= pr.push(val(ls, np(kin(g), h)))); }
  //@ loopend 1
    proof {
        assert(g2.last() == g / 2); if q.len() > 1 { assert(q.skip(1).skip(1) =~= q.skip(2)); }
        assert(queued(queue@, g2, m2, h2, hh)) by {
            if h2 < hh { assert forall|j: int| 0 <= j < queue@.len() implies (#[trigger] queue@[j]).0 as nat == np(g2[j], lv(m2, h2, j)) && queue@[j].1 as nat == lv(m2, h2, j) by { if j < queue@.len() - 1 { assert(queue@[j] == q[j + u]); assert(g2[j] == gs[j + u]); } } }
        }
        gs = g2; m = m2; h = h2;
    }
//@ end
}
#[verifier::external_body] pub fn split_back(v: &mut Vec<MmrNode>, i: usize) -> (r: Vec<MmrNode>) requires i <= old(v)@.len() ensures final(v)@ == old(v)@.take(i as int), r@ == old(v)@.skip(i as int) { v.split_off(i) }
pub open spec fn flatp(ps: Seq<u64>) -> bool { forall|j: int| 0 <= j < ps.len() ==> hgt((#[trigger] ps[j]) as nat) == 0 }
pub open spec fn askable(ps: Seq<u64>, n: nat) -> bool { ps.len() > 0 && forall|j: int| 0 <= j < ps.len() ==> hgt((#[trigger] ps[j]) as nat) == 0 && idx(ps[j]) < n }
pub proof fn tiles_step(pks: Seq<u64>, i: int, a: nat, e: nat) requires tiles(pks.skip(i), a, e), 0 <= i < pks.len() ensures seat(pks[i] as nat, a), tiles(pks.skip(i + 1), a + pow2(hgt(pks[i] as nat)), e)
{ assert(pks.skip(i)[0] == pks[i]); assert(pks.skip(i).skip(1) =~= pks.skip(i + 1)); }
pub proof fn hon_step(rem: Seq<u64>, pks: Seq<u64>, i: int, ls: Seq<H>) requires 0 <= i < pks.len(), rem.len() > 0
    ensures ({ let k = uptop(rem, pks[i]) as int; hon(rem, pks.skip(i), ls) == share(rem.take(k), pks[i], ls) + hon(rem.skip(k), pks.skip(i + 1), ls) })
{ assert(pks.skip(i)[0] == pks[i]); assert(pks.skip(i).skip(1) =~= pks.skip(i + 1)); }
// the peaks before i done with: what is there, and what is still to come
pub open spec fn so_far(done: Seq<H>, t: nat, rem: Seq<u64>, pks: Seq<u64>, i: int, ls: Seq<H>, goal: Seq<H>) -> bool {
    &&& t <= done.len() && t <= i <= pks.len() && done.skip(done.len() - t) == pvals(pks.subrange(i - t, i), ls)
    &&& rem.len() > 0 ==> goal == done + hon(rem, pks.skip(i), ls)
    &&& rem.len() == 0 ==> goal == done.take(done.len() - t) + (if i - t == pks.len() { Seq::empty() } else { seq![bag(pvals(pks.skip(i - t), ls))] })
}
pub proof fn so_far_next(done: Seq<H>, t: nat, rem: Seq<u64>, pks: Seq<u64>, i: int, ls: Seq<H>, goal: Seq<H>)
    requires so_far(done, t, rem, pks, i, ls, goal), i < pks.len()
    ensures ({ let k = uptop(rem, pks[i]) as int; so_far(done + share(rem.take(k), pks[i], ls), if k == 0 { t + 1 } else { 0 }, rem.skip(k), pks, i + 1, ls, goal) })
{
    let pk = pks[i]; let k = uptop(rem, pk) as int; uptop_cuts(rem, pk); let sh = share(rem.take(k), pk, ls); let d2 = done + sh; let r2 = rem.skip(k);
    if rem.len() > 0 { hon_step(rem, pks, i, ls); }
    if k == 0 {
        let t2 = t + 1; assert(sh == seq![val(ls, pk as nat)]);
        assert(d2.skip(d2.len() - t2) =~= pvals(pks.subrange(i + 1 - t2, i + 1), ls)) by { let s = done.skip(done.len() - t); assert(d2.skip(d2.len() - t2) =~= s + sh); assert(pks.subrange(i - t, i + 1) =~= pks.subrange(i - t, i).push(pk)); }
        assert(r2 =~= rem);
        if rem.len() > 0 { assert(d2 + hon(r2, pks.skip(i + 1), ls) =~= done + (sh + hon(r2, pks.skip(i + 1), ls))); }
        else { assert(d2.take(d2.len() - t2) =~= done.take(done.len() - t)); }
    } else {
        assert(d2.skip(d2.len() as int) =~= pvals(pks.subrange(i + 1, i + 1), ls));
        assert(d2 + hon(r2, pks.skip(i + 1), ls) =~= done + (sh + hon(r2, pks.skip(i + 1), ls))); assert(d2.take(d2.len() as int) =~= d2);
        if r2.len() == 0 && i + 1 == pks.len() { assert(hon(r2, pks.skip(i + 1), ls) =~= Seq::empty()); }
    }
}
// what remains: the positions past the leaves so far
pub open spec fn left_of(all: Seq<u64>, rem: Seq<u64>, a: nat) -> bool { (forall|j: int| 0 <= j < all.len() && idx(#[trigger] all[j]) >= a ==> rem.contains(all[j])) && forall|x: u64| #[trigger] rem.contains(x) ==> all.contains(x) }
pub proof fn left_step(all: Seq<u64>, rem: Seq<u64>, pk: u64, a: nat) requires left_of(all, rem, a), strict(rem), leafs(rem, a), seat(pk as nat, a) ensures left_of(all, rem.skip(uptop(rem, pk) as int), a + pow2(hgt(pk as nat)))
{
    let k = uptop(rem, pk) as int; let r2 = rem.skip(k); group(rem, pk, a); let gl = rem.take(k); uptop_cuts(rem, pk);
    assert forall|j: int| 0 <= j < all.len() && idx(#[trigger] all[j]) >= a + pow2(hgt(pk as nat)) implies r2.contains(all[j]) by {
        assert(rem.contains(all[j])); let y = choose|y: int| 0 <= y < rem.len() && rem[y] == all[j];
        if y < k { let gs = idxs(gl); assert(gl[y] == rem[y]); assert(gs[y] == idx(rem[y])); lemma_below_end(gs, k as nat, hgt(pk as nat), px(pk as nat), y); }
        assert(r2[y - k] == all[j]);
    }
    assert forall|x: u64| #[trigger] r2.contains(x) implies all.contains(x) by { let y = choose|y: int| 0 <= y < r2.len() && r2[y] == x; assert(rem[y + k] == x); assert(rem.contains(x)); }
}
pub proof fn left_end(p0: Seq<u64>, all: Seq<u64>, rem: Seq<u64>, n: nat) requires p0.len() > 0, flatp(p0), all == asc(p0), left_of(all, rem, n), leafs(rem, n) ensures (rem.len() == 0) == askable(p0, n)
{
    asc_is(p0);
    if rem.len() > 0 { let x = rem[0]; assert(rem.contains(x)); assert(all.contains(x)); assert(asc(p0).contains(x)); assert(p0.contains(x)); assert(idx(x) >= n); let j = choose|j: int| 0 <= j < p0.len() && p0[j] == x; assert(!askable(p0, n)); }
    else { assert forall|j: int| 0 <= j < p0.len() implies hgt((#[trigger] p0[j]) as nat) == 0 && idx(p0[j]) < n by { assert(p0.contains(p0[j])); assert(asc(p0).contains(p0[j])); let y = choose|y: int| 0 <= y < all.len() && all[y] == p0[j]; if idx(all[y]) >= n { assert(rem.contains(all[y])); } } }
}
pub proof fn one_leaf(n: nat, ls: Seq<H>) requires msize(n) == 1 ensures askable(seq![0u64], n), honest(seq![0u64], n, ls) == Seq::<H>::empty()
{
    let p0 = seq![0u64]; let pks = peaks_from(0, n, 64); let goal = honest(p0, n, ls); asc_is(p0);
    assert(msize(1) == 1) by { assert(tz(1) == 0); assert(msize(0) == 0); } lemma_msize_inj(n, 1); lemma2_to64(); lemma_peaks_k(0, 1, 1, 64); lemma_peaks_zero(1, 0); assert(pks =~= seq![0u64]);
    assert(isnode(0, 0, 0)) by { assert(msize(0) == 0); } node_is(0, 0, 0); assert(p0[0] == 0); assert(askable(p0, n));
    assert(strict(p0)); strict_same(asc(p0), p0);
    let k = uptop(p0, 0) as int; assert(k == 1) by { assert(p0.skip(1).len() == 0); reveal_with_fuel(uptop, 3); } assert(hgt(0) == 0); assert(p0.take(1) =~= p0);
    assert(share(p0.take(k), 0, ls) =~= Seq::empty()); assert(hon(p0.skip(1), pks.skip(1), ls).len() == 0); assert(goal =~= Seq::empty());
}
// past the last peak: the items of the empty peaks at the end made one
pub proof fn so_far_end(done: Seq<H>, t: nat, pks: Seq<u64>, ls: Seq<H>, goal: Seq<H>) requires so_far(done, t, Seq::<u64>::empty(), pks, pks.len() as int, ls, goal)
    ensures t == 0 ==> goal == done, t == 1 ==> goal == done, t > 1 ==> goal == done.take(done.len() - t).push(bag(done.skip(done.len() - t)))
{
    let i = pks.len() as int; assert(pks.skip(i - t) =~= pks.subrange(i - t, i)); let b = done.take(done.len() - t);
    if t == 0 { assert(b + Seq::<H>::empty() =~= done); }
    else { let w = done.skip(done.len() - t); assert(b + seq![bag(w)] =~= b.push(bag(w))); if t == 1 { assert(bag(w) == w[0]); assert(b.push(w[0]) =~= done); } }
}
impl<S: MMRStoreReadOps> MMR<S> {
//@ fn grovedb-merkle-mountain-range/src/mmr.rs MMR::gen_proof
  //@ sig CostResult<MerkleProof, Error> ==> Result<MerkleProof>
  //@ ret r
  //@ attr #[verifier::loop_isolation(false)]
  //@ attr #[verifier::allow_complex_invariants]
  //@ rule Error::GenProofForInvalidLeaves ==> err()
  //@ rule pos_list == [0] ==> only(&pos_list, 0)
  //@ rule1 if pos_list.iter().any(|pos| $c..) { $d.. } ==> let mut high = false; let mut ai: usize = 0; while ai < pos_list.len() { let pos = &pos_list[ai]; if $c { high = true; } ai += 1; } if high { $d }
  //@ rule pos_list.sort_unstable() ==> sort_positions(&mut pos_list)
  //@ rule pos_list.dedup() ==> dedup_positions(&mut pos_list)
  //@ rule for peak_pos in peaks { $b.. } ==> let mut pi: usize = 0; while pi < peaks.len() { let peak_pos = peaks[pi]; pi += 1; $b }
  //@ rule let mut bagging_track = 0; ==> let mut bagging_track: usize = 0;
  //@ rule let pos_list: Vec<_> = take_while_vec(&mut pos_list, |&pos| $c..); ==> let group = take_while_vec(&mut pos_list, |x: &u64| -> (b: bool) ensures b == (*x <= peak_pos) { let pos = *x; $c }); let ghost left = pos_list@; let gl = group;
  //@ rule if pos_list.is_empty() { bagging_track ==> if gl.is_empty() { bagging_track
  //@ rule self.gen_proof_for_peak(&mut proof, pos_list, peak_pos, &mut cost) ==> self.gen_proof_for_peak(&mut proof, gl, peak_pos)
  //@ rule => proof.push(bagged), ==> => { proof.push(bagged); }
  //@ rule let rhs_peaks = proof.split_off($x..); ==> let cut = $x; let rhs_peaks = split_back(&mut proof, cut);
  //@ spec
    requires exists|l: Seq<MmrNode>| #[trigger] self.of(l)
    // the honest items for leaves that exist; an error for others, or from the store
    ensures forall|l: Seq<MmrNode>| #[trigger] self.of(l) ==> match r { Ok(p) => askable(pos_list@, l.len()) && p.mmr_size == self.mmr_size && hs(p.proof@) == honest(pos_list@, l.len(), hs(l)), Err(_) => !(askable(pos_list@, l.len()) && self.batch.store.reliable()) }
  //@ at start
    let ghost l = choose|l: Seq<MmrNode>| #[trigger] self.of(l); let ghost n = l.len(); let ghost ls = hs(l); let ghost p0 = pos_list@; let ghost pks = peaks_from(0, n, 64); let ghost goal = honest(p0, n, ls);
    proof {
        assert forall|k: Seq<MmrNode>| #[trigger] self.of(k) implies k == l by { of_unique(self, l, k); }
        lemma_peak_room(n); tile_all(n); asc_is(p0); assert(isnode(msize(n), n, 0));
        if self.mmr_size == 1 && p0 =~= seq![0u64] { one_leaf(n, ls); }
    }
  //@ loop 1
    invariant ai <= pos_list@.len(), pos_list@ == p0, high == exists|j: int| 0 <= j < ai && hgt((#[trigger] p0[j]) as nat) > 0,
    decreases p0.len() - ai
  //@ loopstart 1
    proof { node_some(pos_list@[ai as int] as nat); }
  //@ before let peaks
    let ghost all = pos_list@; let ghost mut a: nat = 0;
    proof {
        assert(all == asc(p0));
        assert(leafs(all, 0)) by { assert forall|j: int| 0 <= j < all.len() implies hgt((#[trigger] all[j]) as nat) == 0 && idx(all[j]) >= 0 by { assert(asc(p0).contains(all[j])); assert(p0.contains(all[j])); } }
        assert(all.len() > 0) by { assert(p0.contains(p0[0])); assert(asc(p0).contains(p0[0])); }
    }
  //@ preloop 2
    proof {
        assert(pks.skip(0) =~= pks); assert(hs(proof@) =~= Seq::<H>::empty()); assert(Seq::<H>::empty() + goal =~= goal); assert(pvals(pks.subrange(0, 0), ls) =~= Seq::<H>::empty()); assert(hs(proof@).skip(0) =~= Seq::<H>::empty());
        assert(so_far(hs(proof@), 0, pos_list@, pks, 0, ls, goal)); assert(left_of(all, pos_list@, 0));
    }
  //@ loop 2
    invariant pi <= pks.len(), peaks@ == pks, tiles(pks.skip(pi as int), a, n), strict(pos_list@), leafs(pos_list@, a), so_far(hs(proof@), bagging_track as nat, pos_list@, pks, pi as int, ls, goal),
        left_of(all, pos_list@, a),
    decreases pks.len() - pi
  //@ after pi += 1;
    let ghost rem = pos_list@; let ghost done = hs(proof@); let ghost t0 = bagging_track as nat; let ghost k = uptop(rem, peak_pos) as int; let ghost a2 = a + pow2(hgt(peak_pos as nat));
    proof { tiles_step(pks, pi - 1, a, n); group(rem, peak_pos, a); so_far_next(done, t0, rem, pks, pi - 1, ls, goal); }
  //@ after let gl = group;
    proof {
        let z = choose|z: int| 0 <= z <= rem.len() && gl@ == rem.take(z) && left == #[trigger] rem.skip(z) && (forall|j: int| 0 <= j < z ==> #[trigger] rem[j] <= peak_pos) && (z < rem.len() ==> rem[z] > peak_pos); uptop_is(rem, peak_pos, z); assert(z == k);
        assert(flatp(gl@)) by { assert forall|j: int| 0 <= j < gl@.len() implies hgt((#[trigger] gl@[j]) as nat) == 0 by { assert(gl@[j] == rem[j]); } }
        left_step(all, rem, peak_pos, a);
        assert(pks[pi - 1] < msize(n));
    }
  //@ loopend 2
    proof { a = a2; }
  //@ postloop 2
    proof {
        assert(pks.skip(pi as int).len() == 0); assert(a == n);
        left_end(p0, all, pos_list@, n);
        if pos_list@.len() == 0 { assert(pos_list@ =~= Seq::<u64>::empty()); so_far_end(hs(proof@), bagging_track as nat, pks, ls, goal); }
    }
  //@ before let cut =
    let ghost fin = hs(proof@); let ghost cutp = fin.len() - bagging_track;
  //@ before match bag_peaks(rhs_peaks)
    proof { assert(hs(rhs_peaks@) =~= fin.skip(cutp)); assert(hs(proof@) =~= fin.take(cutp)); }
  //@ after proof.push(bagged);
    proof { assert(hs(proof@) =~= fin.take(cutp).push(bagged.hash)); }
//@ end
}
pub proof fn lemma_below_end(gs: Seq<nat>, m: nat, hh: nat, x: nat, y: int) requires good(gs, m, 0, hh, x), 0 <= y < m ensures gs[y] < pow2(hh) * x + pow2(hh)
{ lemma2_to64(); if hh == 0 { assert(pow2(0) * x == x) by (nonlinear_arith) requires pow2(0) == 1; } else { assert(below(hh, lv(m, 0, y), x, gs[y])); assert(pow2(hh) * (x + 1) == pow2(hh) * x + pow2(hh)) by (nonlinear_arith); } }
// ---- a proof of values ----
impl MerkleProof {
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::proof_items
  //@ ret r
  //@ sig &[MmrNode] ==> &Vec<MmrNode>
  //@ spec
    ensures *r == self.proof
//@ end
}
// trusted: LazyNodeStore, a cache over the read function; what it puts off as an error ends the generation with an error
#[verifier::external_body] #[verifier::reject_recursive_types(F)] pub struct LazyNodeStore<'a, F> { x: &'a F }
impl<'a, F: Fn(u64) -> Result<Option<MmrNode>>> LazyNodeStore<'a, F> {
    pub uninterp spec fn m(&self) -> Nodes;
    pub uninterp spec fn f(&self) -> F;
    #[verifier::external_body] pub fn new(f: &'a F, m: Ghost<Nodes>) -> (r: Self) requires reads(*f, m@), askf(*f) ensures r.m() == m@, r.f() == *f { unimplemented!() }
    #[verifier::external_body] pub fn share(&self) -> (r: Self) ensures r.m() == self.m(), r.f() == self.f() { unimplemented!() }
    #[verifier::external_body] pub fn take_error(&self) -> (r: Option<Error>) ensures r is Some ==> !sure(self.f()) { unimplemented!() }
}
impl<'a, F: Fn(u64) -> Result<Option<MmrNode>>> MMRStoreReadOps for LazyNodeStore<'a, F> {
    open spec fn nodes(&self) -> Nodes { self.m() }
    open spec fn reliable(&self) -> bool { sure(self.f()) }
    open spec fn other(&self) -> Rest { |k: Seq<u8>| None }
    open spec fn kind(&self) -> int { 0 }
    #[verifier::external_body] fn element_at_position(&self, pos: u64) -> (r: Result<Option<MmrNode>>) { unimplemented!() }
}
pub open spec fn sel(m: Nodes, n: nat) -> Seq<MmrNode> { Seq::new(n, |i: int| opt(m, msize(i as nat))->0) }
pub open spec fn positions_of(ix: Seq<u64>) -> Seq<u64> { ix.map_values(|i: u64| msize(i as nat) as u64) }
pub proof fn leaf_at(i: nat) ensures isnode(msize(i), i, 0), hgt(msize(i)) == 0, node(msize(i)) == (i, 0nat), forall|ls: Seq<H>| #[trigger] val(ls, msize(i)) == ls[i as int]
{ assert(isnode(msize(i), i, 0)); node_is(msize(i), i, 0); lemma2_to64(); assert forall|ls: Seq<H>| #[trigger] val(ls, msize(i)) == ls[i as int] by { assert(i + 1 - pow2(0) == i); } }
pub proof fn sel_is<F: Fn(u64) -> Result<Option<MmrNode>>>(r: &MMR<LazyNodeStore<F>>, m: Nodes, size: u64, vs: Seq<Seq<u8>>) requires bears(m, size, vs), r.mmr_size == size, r.batch.memory_batch@ == Ov::empty(), r.batch.store.m() == m
    ensures r.of(sel(m, vs.len())), hs(sel(m, vs.len())) == lhs(vs)
{
    let n = vs.len(); let l = sel(m, n);
    assert(hs(l) =~= lhs(vs)) by { assert forall|i: int| 0 <= i < n implies hs(l)[i] == lhs(vs)[i] by { leaf_at(i as nat); lemma_msize_mono(i as nat, n); assert(opt(m, msize(i as nat)) is Some); assert(val(lhs(vs), msize(i as nat)) == lhs(vs)[i]); } }
    assert forall|i: nat| i < n implies same_leaf(r.batch.seen(#[trigger] msize(i)), l[i as int]) by { lemma_msize_mono(i, n); assert(opt(m, msize(i)) is Some); }
    assert forall|p: nat| p < msize(n) implies (#[trigger] r.batch.seen(p)) is Some && r.batch.seen(p)->0.hash == val(hs(l), p) by { assert(opt(m, p) is Some); }
}
// so what is generated is accepted, with the root of the range
pub proof fn answers(a: Vals, ix: Seq<u64>, vs: Seq<Seq<u8>>, size: u64, it: Seq<H>)
    requires picked(a, ix, vs), ix.len() > 0, msize(vs.len()) == size, forall|j: int| 0 <= j < ix.len() ==> #[trigger] ix[j] < vs.len(), it == honest(positions_of(ix), vs.len(), lhs(vs))
    ensures root_of_size(a, size, it) == Some(mroot(vs.len(), lhs(vs))), in_count(a, size)
{
    let n = vs.len(); let l = stand(a); let ls = lhs(vs); leaf_at(n);
    assert forall|j: int| 0 <= j < l.len() implies hgt((#[trigger] l[j]).0 as nat) == 0 && idx(l[j].0) < n && l[j].1.hash == val(ls, l[j].0 as nat) && l[j].0 as nat == msize(ix[j] as nat) by { let i = ix[j] as nat; assert(a[j].0 == ix[j]); leaf_at(i); lemma_msize_mono(i, n); assert(val(ls, msize(i)) == ls[i as int]); }
    assert(keys(l) =~= positions_of(ix)) by { assert forall|j: int| 0 <= j < l.len() implies keys(l)[j] == positions_of(ix)[j] by { assert(l[j].0 as nat == msize(ix[j] as nat)); } }
    assert(holds(l, ls)); assert(flat(l)); accepts(l, size, n, ls); node_is(size as nat, n, 0);
    assert forall|j: int, k: nat, h: nat| 0 <= j < a.len() && #[trigger] isnode(size as nat, k, h) implies (#[trigger] a[j]).0 < k by { node_unique(size as nat, k, h, n, 0); assert(a[j].0 == ix[j]); }
}
//@ include mmr_gen.inc
} // verus!
fn main() {}
