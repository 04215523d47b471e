// ---- what the functions must compute -------------------------------------
// number of merges that pushing the n-th leaf (1-based) triggers
pub open spec fn tz(n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else if n % 2 == 1 { 0 } else { 1 + tz(n / 2) }
}
// size of the MMR after n leaves have been pushed one by one
pub open spec fn msize(n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { msize((n - 1) as nat) + 1 + tz(n) }
}
pub open spec fn pc(n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { n % 2 + pc(n / 2) }
}
// peaks of an MMR with r leaves (r < 2^k) whose first node is at `base`
pub open spec fn peaks_from(base: nat, r: nat, k: nat) -> Seq<u64>
    decreases k
{
    if k == 0 { Seq::empty() }
    else if r >= pow2((k - 1) as nat) {
        seq![(base + pow2(k) - 2) as u64] + peaks_from((base + pow2(k) - 1) as nat, (r - pow2((k - 1) as nat)) as nat, (k - 1) as nat)
    } else { peaks_from(base, r, (k - 1) as nat) }
}

// std function without a vstd specification (trusted)
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32)
    ensures r as nat == pc(x as nat), r <= 64;

// ---- lemmas ---------------------------------------------------------------
pub proof fn lemma_pc_tz(n: nat)
    requires n > 0
    ensures pc(n) + tz(n) == pc((n - 1) as nat) + 1
    decreases n
{
    if n % 2 == 1 {
        assert((n - 1) as nat / 2 == n / 2);
        if n == 1 { assert(pc(0) == 0); } else { assert(pc((n - 1) as nat) == pc(n / 2)); }
    } else {
        lemma_pc_tz(n / 2);
        assert(((n - 1) as nat) % 2 == 1);
        assert(((n - 1) as nat) / 2 == (n / 2 - 1) as nat);
    }
}
pub proof fn lemma_pc_le(n: nat)
    ensures pc(n) <= n, n > 0 ==> pc(n) >= 1
    decreases n
{ if n > 0 { lemma_pc_le(n / 2); } }
pub proof fn lemma_msize(n: nat)
    ensures msize(n) + pc(n) == 2 * n
    decreases n
{
    if n > 0 { lemma_msize((n - 1) as nat); lemma_pc_tz(n); }
}
pub proof fn lemma_pc_add(j: nat, r: nat)
    requires r < pow2(j)
    ensures pc((pow2(j) + r) as nat) == 1 + pc(r)
    decreases j
{
    lemma_pow2_pos(j);
    if j == 0 { lemma2_to64(); assert(pc(1) == 1 + pc(0)) by { reveal_with_fuel(pc, 3); } }
    else {
        lemma_pow2_unfold(j);
        let h = pow2((j - 1) as nat);
        assert((pow2(j) + r) as nat == 2 * h + r);
        assert((2 * h + r) / 2 == h + r / 2);
        assert((2 * h + r) % 2 == r % 2);
        lemma_pc_add((j - 1) as nat, r / 2);
        lemma_pow2_pos((j - 1) as nat);
        if r == 0 { assert(pc(r / 2) == pc(r)); }
    }
}
// prepending a perfect tree of 2^j leaves
pub proof fn lemma_msize_add(j: nat, r: nat)
    requires r < pow2(j)
    ensures msize((pow2(j) + r) as nat) == pow2(j + 1) - 1 + msize(r)
{
    lemma_msize((pow2(j) + r) as nat); lemma_msize(r); lemma_pc_add(j, r);
    lemma_pow2_unfold(j + 1);
}
pub proof fn lemma_msize_lt(j: nat, r: nat)
    requires r < pow2(j)
    ensures msize(r) < pow2(j + 1) - 1
{
    lemma_msize(r); lemma_pc_le(r); lemma_pow2_unfold(j + 1); lemma_pow2_pos(j);
    if r == 0 { lemma_pow2_strictly_increases(0, j + 1); lemma2_to64(); }
}
pub proof fn lemma_msize_ge(n: nat)
    ensures msize(n) >= n
{ lemma_msize(n); lemma_pc_le(n); }
pub proof fn lemma_msize_inj(a: nat, b: nat)
    requires msize(a) == msize(b)
    ensures a == b
{ if a < b { lemma_msize_mono(a, b); } else if b < a { lemma_msize_mono(b, a); } }
pub proof fn lemma_msize_mono(a: nat, b: nat)
    requires a < b
    ensures msize(a) < msize(b)
    decreases b
{ if a < b - 1 { lemma_msize_mono(a, (b - 1) as nat); } }
pub proof fn lemma_tz_mod(n: nat)
    requires n > 0
    ensures n % pow2(tz(n)) == 0, pow2(tz(n)) <= n
    decreases n
{
    lemma2_to64();
    if n % 2 == 0 {
        lemma_tz_mod(n / 2);
        let t = tz(n / 2);
        lemma_pow2_unfold(t + 1);
        lemma_pow2_pos(t);
        let q = (n / 2) / pow2(t);
        lemma_fundamental_div_mod((n / 2) as int, pow2(t) as int);
        assert(n == (2 * pow2(t)) * q) by (nonlinear_arith) requires n / 2 == pow2(t) * q, n % 2 == 0;
        lemma_mod_multiples_basic(q as int, pow2(t + 1) as int);
        lemma_mul_is_commutative(q as int, pow2(t + 1) as int);
    }
}
pub proof fn lemma_tz_add(j: nat, r: nat)
    requires 0 < r < pow2(j)
    ensures tz((pow2(j) + r) as nat) == tz(r), tz(r) < j
    decreases j
{
    lemma2_to64();
    if j == 0 {} else {
        lemma_pow2_unfold(j);
        let h = pow2((j - 1) as nat);
        assert((2 * h + r) % 2 == r % 2);
        assert((2 * h + r) / 2 == h + r / 2);
        if r % 2 == 0 { lemma_tz_add((j - 1) as nat, r / 2); }
    }
}
pub proof fn lemma_tz_pow(j: nat)
    ensures tz(pow2(j)) == j
    decreases j
{
    lemma2_to64(); lemma_pow2_pos(j);
    if j > 0 { lemma_pow2_unfold(j); lemma_tz_pow((j - 1) as nat); assert(pow2(j) % 2 == 0); assert(pow2(j) / 2 == pow2((j - 1) as nat)); }
    else { assert(tz(1) == 0); }
}
pub proof fn lemma_tz_char(x: u64, t: u64)
    requires x > 0, t < 64, (x >> t) & 1 == 1, forall|j: u64| j < t ==> #[trigger] (x >> j) & 1 == 0
    ensures tz(x as nat) == t
    decreases t
{
    assert((x & 1 == 0) == (x % 2 == 0)) by (bit_vector);
    assert(x >> 0u64 == x) by (bit_vector);
    if t == 0 { }
    else {
        assert((x >> 0u64) & 1 == 0);
        let y = x / 2;
        let s = (t - 1) as u64;
        assert((y >> s) & 1 == 1) by (bit_vector) requires y == x / 2, (x >> t) & 1 == 1, s == sub(t, 1), 0 < t < 64;
        assert forall|j: u64| j < s implies #[trigger] (y >> j) & 1 == 0 by {
            let j1 = (j + 1) as u64;
            assert((x >> j1) & 1 == 0);
            assert((y >> j) & 1 == 0) by (bit_vector) requires y == x / 2, (x >> j1) & 1 == 0, j1 == add(j, 1), j < 63;
        }
        if y == 0 { assert(0u64 >> s == 0) by (bit_vector) requires s < 64; assert(0u64 & 1 == 0) by (bit_vector); }
        lemma_tz_char(y, s);
    }
}
pub proof fn lemma_tz_u64(x: u64)
    requires x > 0
    ensures u64_trailing_zeros(x) as nat == tz(x as nat)
{
    axiom_u64_trailing_zeros(x);
    let t = u64_trailing_zeros(x) as u64;
    assert((x >> t) & 1 == 1);
    assert forall|j: u64| j < t implies #[trigger] (x >> j) & 1 == 0 by { }
    lemma_tz_char(x, t);
}
// u64::MAX >> leading_zeros is the all-ones mask of the value's bit length
pub proof fn lemma_mask(pos: u64) -> (k: nat)
    requires pos > 0
    ensures 1 <= k <= 64, k == 64 - u64_leading_zeros(pos),
        (u64::MAX >> u64_leading_zeros(pos)) as nat == pow2(k) - 1, (pos as nat) < pow2(k)
{
    axiom_u64_leading_zeros(pos);
    let lz = u64_leading_zeros(pos) as u64;
    let k = (64 - lz) as u64;
    assert(u64::MAX == 0xffff_ffff_ffff_ffffu64);
    lemma_ones(k);
    assert(0xffff_ffff_ffff_ffffu64 >> lz == 0xffff_ffff_ffff_ffffu64 >> ((64 - k) as u64));
    assert(pos <= 0xffff_ffff_ffff_ffffu64 >> lz) by (bit_vector) requires lz < 64, pos >> sub(64, lz) == 0 || lz == 0;
    k as nat
}
pub proof fn lemma_ones(k: u64)
    requires 1 <= k <= 64
    ensures (0xffff_ffff_ffff_ffffu64 >> ((64 - k) as u64)) as nat == pow2(k as nat) - 1
    decreases k
{
    lemma2_to64();
    if k == 1 { assert(0xffff_ffff_ffff_ffffu64 >> 63u64 == 1) by (bit_vector); }
    else {
        lemma_ones((k - 1) as u64);
        lemma_pow2_unfold(k as nat);
        let s = (64 - k) as u64;
        assert((64 - (k - 1)) as u64 == s + 1);
        assert(0xffff_ffff_ffff_ffffu64 >> s == 2 * (0xffff_ffff_ffff_ffffu64 >> add(s, 1)) + 1) by (bit_vector) requires s < 63;
    }
}
pub proof fn lemma_halve_ones(p: u64, k: nat)
    requires k >= 1, p as nat == pow2(k) - 1
    ensures (p >> 1) as nat == pow2((k - 1) as nat) - 1
{
    lemma_pow2_unfold(k);
    assert(p >> 1 == p / 2) by (bit_vector);
}

pub proof fn lemma_ones_tz(x: u64)
    requires x < u64::MAX
    ensures u64_trailing_ones(x) as nat == tz((x + 1) as nat)
{
    axiom_u64_trailing_ones(x);
    let y = (x + 1) as u64;
    let t = u64_trailing_ones(x) as u64;
    if t == 64 { assert(forall|j: u64| j < 64 ==> #[trigger] (x >> j) & 1 == 1); lemma_all_ones(x); }
    else {
        assert((x >> t) & 1 == 0);
        assert(forall|j: u64| j < t ==> #[trigger] (x >> j) & 1 == 1);
        lemma_to_char(x, t);
    }
}
pub proof fn lemma_all_ones(x: u64)
    requires forall|j: u64| j < 64 ==> #[trigger] (x >> j) & 1 == 1
    ensures x == u64::MAX
{
    if x != u64::MAX {
        let z = !x;
        assert(z != 0) by (bit_vector) requires z == !x, x != 0xffff_ffff_ffff_ffffu64;
        axiom_u64_trailing_zeros(z);
        let t = u64_trailing_zeros(z) as u64;
        assert((z >> t) & 1 == 1);
        assert((x >> t) & 1 == 1);
        assert(false) by (bit_vector) requires (z >> t) & 1 == 1, (x >> t) & 1 == 1, z == !x, t < 64;
    }
}
pub proof fn lemma_to_char(x: u64, t: u64)
    requires t < 64, (x >> t) & 1 == 0, forall|j: u64| j < t ==> #[trigger] (x >> j) & 1 == 1
    ensures x < u64::MAX, tz((x + 1) as nat) == t
    decreases t
{
    assert((x & 1 == 1) == (x % 2 == 1)) by (bit_vector);
    assert(x & 1 == 0 || x & 1 == 1) by (bit_vector);
    assert(x >> 0u64 == x) by (bit_vector);
    assert(x != 0xffff_ffff_ffff_ffffu64) by (bit_vector) requires (x >> t) & 1 == 0, t < 64;
    if t > 0 {
        assert((x >> 0u64) & 1 == 1);
        let y = x / 2;
        let s = (t - 1) as u64;
        assert((y >> s) & 1 == 0) by (bit_vector) requires y == x / 2, (x >> t) & 1 == 0, s == sub(t, 1), 0 < t < 64;
        assert forall|j: u64| j < s implies #[trigger] (y >> j) & 1 == 1 by {
            let j1 = (j + 1) as u64;
            assert((x >> j1) & 1 == 1);
            assert((y >> j) & 1 == 1) by (bit_vector) requires y == x / 2, (x >> j1) & 1 == 1, j1 == add(j, 1), j < 63;
        }
        lemma_to_char(y, s);
        assert((x + 1) as nat / 2 == (y + 1) as nat);
    }
}
pub proof fn lemma_peaks_zero(base: nat, k: nat)
    ensures peaks_from(base, 0, k) == Seq::<u64>::empty()
    decreases k
{ if k > 0 { lemma_pow2_pos((k - 1) as nat); lemma_peaks_zero(base, (k - 1) as nat); } }
pub proof fn lemma_peaks_k(base: nat, r: nat, k: nat, m: nat)
    requires r < pow2(k), k <= m
    ensures peaks_from(base, r, k) == peaks_from(base, r, m)
    decreases m
{
    if k < m {
        if k < m - 1 { lemma_pow2_strictly_increases(k, (m - 1) as nat); }
        lemma_peaks_k(base, r, k, (m - 1) as nat);
    }
}
pub proof fn lemma_tz_bound(i: nat, h: nat, p: u64)
    requires h <= tz((i + 1) as nat), p as nat == msize(i) + h
    ensures h < 256
{
    lemma_tz_mod((i + 1) as nat);
    if h >= 255 { lemma_msize_ge(i); lemma2_to64();
        if tz((i + 1) as nat) > 65 { lemma_pow2_strictly_increases(65, tz((i + 1) as nat)); }
        lemma_pow2_unfold(65);
        assert(i + 1 >= pow2(65));
    }
}
pub proof fn lemma_height_start(i: nat, h: nat, k: nat)
    requires h <= tz((i + 1) as nat), msize(i) + h < pow2(k), k >= 1
    ensures i < pow2(k)
{ lemma_msize_ge(i); }
pub proof fn lemma_height_step(r: nat, h: nat, k: nat)
    requires k >= 1, r < pow2(k), r + 1 < pow2(k) ==> h <= tz((r + 1) as nat)
    ensures ({ let p = pow2((k - 1) as nat);
        &&& (r >= p) == (msize(r) + h >= pow2(k) - 1)
        &&& r >= p ==> r - p < p && (r - p + 1 < p ==> h <= tz((r - p + 1) as nat))
        &&& r < p ==> (r + 1 < p ==> h <= tz((r + 1) as nat)) })
{
    let j = (k - 1) as nat;
    let p = pow2(j);
    lemma_pow2_unfold(k); lemma_pow2_pos(j);
    if r >= p {
        lemma_msize_add(j, (r - p) as nat);
        if r - p + 1 < p { lemma_tz_add(j, (r - p + 1) as nat); assert((p + (r - p + 1)) as nat == r + 1); }
    } else {
        assert(r + 1 < pow2(k) || (k == 1 && r == 0 && false) || r + 1 <= p);
        lemma_msize(r); lemma_msize((r + 1) as nat);
        assert(msize((r + 1) as nat) == msize(r) + 1 + tz((r + 1) as nat));
        if r + 1 < p { lemma_msize_lt(j, (r + 1) as nat); }
        else { assert(pow2(j) + 0 == r + 1); lemma_msize_add(j, 0); assert(msize(0) == 0); }
        if k == 1 { lemma2_to64(); }
    }
}
// node h of the push of leaf i: the position after msize(i) nodes and h merges. Every position is one of these
pub open spec fn at(i: nat, h: nat) -> nat { msize(i) + h }
pub open spec fn isnode(p: nat, i: nat, h: nat) -> bool { h <= tz((i + 1) as nat) && p == at(i, h) }
pub proof fn lemma_msize_top(n: nat)
    requires msize(n) <= u64::MAX
    ensures n <= 0x8000_0000_0000_0000
{
    lemma_msize(n); lemma2_to64();
    if n > 0x8000_0000_0000_0000 { lemma_msize_mono(0x8000_0000_0000_0000, n); lemma_pow2_unfold(64); lemma_pow2_pos(63); lemma_msize_add(63, 0); assert(msize(0) == 0); }
}
pub proof fn node_of(p: nat) -> (r: (nat, nat))
    ensures isnode(p, r.0, r.1)
    decreases p
{
    if p == 0 { assert(isnode(0, 0, 0)) by { assert(msize(0) == 0); } (0, 0) }
    else {
        let (i, h) = node_of((p - 1) as nat);
        if h < tz((i + 1) as nat) { (i, (h + 1) as nat) }
        else { assert(msize((i + 1) as nat) == msize(i) + 1 + tz((i + 1) as nat)); ((i + 1) as nat, 0) }
    }
}
pub proof fn node_unique(p: nat, i: nat, h: nat, j: nat, g: nat)
    requires isnode(p, i, h), isnode(p, j, g)
    ensures i == j, h == g
{
    assert(msize((i + 1) as nat) == msize(i) + 1 + tz((i + 1) as nat));
    assert(msize((j + 1) as nat) == msize(j) + 1 + tz((j + 1) as nat));
    if i < j { if i + 1 < j { lemma_msize_mono((i + 1) as nat, j); } }
    else if j < i { if j + 1 < i { lemma_msize_mono((j + 1) as nat, i); } }
}
// ---- /repo code -----------------------------------------------------------
//@ fn grovedb-merkle-mountain-range/src/helper.rs leaf_index_to_mmr_size
  //@ ret r
  //@ spec
    requires index <= 0x7fff_ffff_ffff_ffff
    ensures r as nat == msize((index + 1) as nat)
  //@ at start
    proof { lemma_msize((index + 1) as nat); lemma_pc_le((index + 1) as nat); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs leaf_index_to_pos
  //@ ret r
  //@ spec
    requires index <= 0x7fff_ffff_ffff_ffff
    ensures r as nat == msize(index as nat)
  //@ at start
    proof { lemma_tz_u64((index + 1) as u64); assert(msize((index + 1) as nat) == msize(index as nat) + 1 + tz((index + 1) as nat)); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs get_peak_map
  //@ ret res
  //@ spec
    // the leaves of the last whole range within this many nodes
    ensures forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) ==> res as nat == n
  //@ at start
    let ghost (n0, h0) = node_of(mmr_size as nat);
    proof { assert(msize(0) == 0); assert forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) implies n == n0 by { node_unique(mmr_size as nat, n, h, n0, h0); } lemma_msize_ge(n0); }
  //@ preloop 1
    let ghost k0 = lemma_mask(pos);
    let ghost mut k = k0;
    let ghost mut r: nat = n0;
    proof { lemma_height_start(n0, h0, k0); assert(peak_map as nat * pow2(k) == 0); lemma_msize_top(n0); }
  //@ loop 1
        invariant
            k <= 64, peak_size as nat == pow2(k) - 1, n0 <= 0x8000_0000_0000_0000,
            pos as nat == msize(r) + h0, r < pow2(k), r + 1 < pow2(k) ==> h0 <= tz((r + 1) as nat), peak_map as nat * pow2(k) + r == n0
        decreases peak_size
  //@ loopstart 1
        let ghost pm0: u64 = peak_map;
        proof {
            lemma2_to64();
            if k == 0 { assert(false); }
            lemma_pow2_unfold(k); lemma_halve_ones(peak_size, k);
            let j = (k - 1) as nat;
            assert(pm0 as nat * pow2(k) == (2 * pm0 as nat) * pow2(j)) by (nonlinear_arith) requires pow2(k) == 2 * pow2(j);
            lemma_pow2_pos(j);
            assert(2 * pm0 as nat <= n0) by (nonlinear_arith) requires (2 * pm0 as nat) * pow2(j) <= n0, pow2(j) >= 1;
            lemma_height_step(r, h0, k); if r >= pow2(j) { lemma_msize_add(j, (r - pow2(j)) as nat); }
            assert(pm0 << 1u64 == 2 * pm0) by (bit_vector) requires pm0 <= 0x4000_0000_0000_0000;
            assert((pm0 << 1u64) | 1 == add(pm0 << 1u64, 1)) by (bit_vector);
        }
  //@ loopend 1
        proof {
            let j = (k - 1) as nat;
            if r >= pow2(j) {
                assert((2 * pm0 as nat + 1) * pow2(j) == (2 * pm0 as nat) * pow2(j) + pow2(j)) by (nonlinear_arith);
                r = (r - pow2(j)) as nat;
            }
            k = j;
        }
  //@ postloop 1
    proof {
        lemma2_to64();
        if k > 0 { lemma_pow2_strictly_increases(0, k); }
        assert(r == 0 && peak_map as nat == n0) by (nonlinear_arith) requires k == 0, pow2(0) == 1, r < pow2(k), peak_map as nat * pow2(k) + r == n0;
    }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs mmr_size_to_leaf_count
  //@ ret r
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) ==> r as nat == n
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs hash_count_for_push
  //@ ret r
  //@ spec
    requires leaf_count < u64::MAX
    ensures r as nat == 1 + tz((leaf_count + 1) as nat)
  //@ at start
    proof { lemma_ones_tz(leaf_count); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs get_peaks
  //@ ret res
  //@ spec
    ensures forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) ==> res@ == peaks_from(0, n, 64)
  //@ at start
    let ghost (n0, h0) = node_of(mmr_size as nat);
    proof { assert(msize(0) == 0); assert forall|n: nat, h: nat| #[trigger] isnode(mmr_size as nat, n, h) implies n == n0 by { node_unique(mmr_size as nat, n, h, n0, h0); } lemma_msize_ge(n0); lemma_peaks_zero(0, 64); }
  //@ preloop 1
    let ghost k0 = lemma_mask(pos);
    let ghost mut k = k0;
    let ghost mut r: nat = n0;
    proof { lemma_height_start(n0, h0, k0); lemma_peaks_k(0, n0, k0, 64); assert(peaks@ + peaks_from(0, n0, k0) =~= peaks_from(0, n0, k0)); }
  //@ loop 1
        invariant
            k <= 64, peak_size as nat == pow2(k) - 1, peaks_sum + pos == mmr_size,
            pos as nat == msize(r) + h0, r < pow2(k), r + 1 < pow2(k) ==> h0 <= tz((r + 1) as nat), peaks@ + peaks_from(peaks_sum as nat, r, k) == peaks_from(0, n0, 64)
        decreases peak_size
  //@ loopstart 1
        let ghost (ps0, s0) = (peaks@, peaks_sum);
        proof {
            lemma2_to64();
            if k == 0 { assert(false); }
            lemma_pow2_unfold(k); lemma_halve_ones(peak_size, k);
            let j = (k - 1) as nat;
            lemma_height_step(r, h0, k); if r >= pow2(j) { lemma_msize_add(j, (r - pow2(j)) as nat); }
        }
  //@ loopend 1
        proof {
            let j = (k - 1) as nat;
            if r >= pow2(j) {
                let rest = peaks_from(peaks_sum as nat, (r - pow2(j)) as nat, j);
                assert(ps0 + peaks_from(s0 as nat, r, k) =~= peaks@ + rest);
                r = (r - pow2(j)) as nat;
            }
            k = j;
        }
  //@ postloop 1
    proof {
        lemma2_to64();
        if k > 0 { lemma_pow2_strictly_increases(0, k); }
        assert(peaks@ + peaks_from(peaks_sum as nat, r, 0) =~= peaks@);
    }
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs pos_height_in_tree
  //@ ret res
  //@ spec
    // the node created by the h-th merge after pushing leaf i (h = 0: the leaf itself) has height h
    ensures forall|i: nat, h: nat| #[trigger] isnode(pos as nat, i, h) ==> res as nat == h
  //@ at start
    let ghost p0 = pos;
    let ghost (i0, h0) = node_of(p0 as nat);
    proof { assert(msize(0) == 0); assert forall|i: nat, h: nat| #[trigger] isnode(p0 as nat, i, h) implies i == i0 && h == h0 by { node_unique(p0 as nat, i, h, i0, h0); } }
  //@ preloop 1
    let ghost k0 = lemma_mask(pos);
    let ghost mut k = k0;
    let ghost mut r: nat = i0;
    proof { lemma_height_start(i0, h0, k0); }
  //@ loop 1
        invariant
            k <= 64, peak_size as nat == pow2(k) - 1,
            pos as nat == msize(r) + h0, r < pow2(k), r + 1 < pow2(k) ==> h0 <= tz((r + 1) as nat)
        decreases peak_size
  //@ loopstart 1
        proof {
            lemma2_to64();
            if k == 0 { assert(false); }
            lemma_pow2_unfold(k); lemma_halve_ones(peak_size, k);
            let j = (k - 1) as nat;
            lemma_height_step(r, h0, k); if r >= pow2(j) { lemma_msize_add(j, (r - pow2(j)) as nat); r = (r - pow2(j)) as nat; }
        }
  //@ loopend 1
        proof { k = (k - 1) as nat; }
  //@ postloop 1
    proof {
        lemma2_to64();
        if k > 0 { lemma_pow2_strictly_increases(0, k); }
        assert(r == 0 && pos as nat == h0);
        lemma_tz_bound(i0, h0, p0);
    }
//@ end
