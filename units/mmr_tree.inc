// ---- blake3: uninterpreted, without collisions ----
pub type H = [u8; 32];
pub uninterp spec fn blake(s: Seq<u8>) -> H;
pub axiom fn blake_inj(a: Seq<u8>, b: Seq<u8>) ensures blake(a) == blake(b) ==> a == b;
#[verifier::external_body] pub struct Hasher { x: u8 }
impl Hasher {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: H) ensures r == blake(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn hash_of(b: &[u8; 65]) -> (r: H) ensures r == blake(b@) { unimplemented!() }
#[verifier::external_body] pub fn put(b: &mut [u8; 65], s: usize, e: usize, x: &[u8; 32]) requires s + 32 == e, e <= 65 ensures forall|i: int| 0 <= i < 65 ==> #[trigger] final(b)@[i] == if s <= i < e { x@[i - s] } else { old(b)@[i] } { unimplemented!() }
#[verifier::external_body] pub fn same32(a: &[u8; 32], b: &[u8; 32]) -> (r: bool) ensures r == (*a == *b) { a == b }
// the documented hashes: a leaf 0x00 || value, an inner node 0x01 || left || right
pub open spec fn leafh(v: Seq<u8>) -> H { blake(seq![0u8] + v) }
pub open spec fn mergeh(a: H, b: H) -> H { blake(seq![1u8] + a@ + b@) }
pub proof fn leafh_inj(a: Seq<u8>, b: Seq<u8>) requires leafh(a) == leafh(b) ensures a == b
{ blake_inj(seq![0u8] + a, seq![0u8] + b); assert((seq![0u8] + a).skip(1) =~= a); assert((seq![0u8] + b).skip(1) =~= b); }
pub proof fn mergeh_inj(a: H, b: H, c: H, d: H) requires mergeh(a, b) == mergeh(c, d) ensures a == c, b == d
{
    let x = seq![1u8] + a@ + b@; let y = seq![1u8] + c@ + d@; blake_inj(x, y);
    assert(x.subrange(1, 33) =~= a@); assert(y.subrange(1, 33) =~= c@); assert(x.subrange(33, 65) =~= b@); assert(y.subrange(33, 65) =~= d@);
    assert(a =~= c); assert(b =~= d);
}
#[verifier::external_body] #[derive(Debug)] pub struct Error { x: usize }
#[verifier::external_body] pub fn err() -> Error { unimplemented!() }
pub type Result<T> = core::result::Result<T, Error>;
//@ rules
Error::InvalidProof($x..) ==> err()
Error::InvalidInput($x..) ==> err()
Error::NodeProofsNotSupported ==> err()
Error::GetRootOnEmpty ==> err()
Error::InconsistentStore ==> err()
blake3::Hasher::new() ==> Hasher::new()
*hasher.finalize().as_bytes() ==> hasher.finish()
*blake3::hash(&input).as_bytes() ==> hash_of(&input)
input[$s.. .. $e].copy_from_slice($l) ==> put(&mut input, $s, $e, $l)
//@ end
//@ const grovedb-merkle-mountain-range/src/node.rs LEAF_TAG
//@ const grovedb-merkle-mountain-range/src/node.rs INTERNAL_TAG
//@ type grovedb-merkle-mountain-range/src/node.rs MmrNode
  //@ attr #[derive(Debug)]
//@ end
#[verifier::external_body] pub fn clone_node(n: &MmrNode) -> (r: MmrNode) ensures r == *n { unimplemented!() }
//@ fn grovedb-merkle-mountain-range/src/node.rs leaf_hash
  //@ ret r
  //@ spec
    ensures r == leafh(value@)
  //@ before hasher.finish()
    proof { assert(Seq::<u8>::empty() + [LEAF_TAG]@ + value@ =~= seq![0u8] + value@); }
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs blake3_merge
  //@ ret r
  //@ spec
    ensures r == mergeh(*left, *right)
  //@ before hash_of(&input)
    proof { assert(input@ =~= seq![1u8] + left@ + right@); }
//@ end
impl MmrNode {
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::leaf
  //@ ret r
  //@ spec
    ensures r.hash == leafh(value@), r.value == Some(value), !r.is_data_leaf
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::internal
  //@ ret r
  //@ spec
    ensures r.hash == hash, r.value is None, !r.is_data_leaf
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::hash
  //@ ret r
  //@ spec
    ensures r == self.hash
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::into_value
  //@ ret r
  //@ spec
    ensures r == self.value
//@ end
//@ fn grovedb-merkle-mountain-range/src/node.rs MmrNode::merge
  //@ ret r
  //@ spec
    ensures r.hash == mergeh(left.hash, right.hash), r.value is None, !r.is_data_leaf
//@ end
}
// ---- the range over a sequence of leaf hashes ----
// the node of height h whose leaves start at a
pub open spec fn nv(ls: Seq<H>, a: int, h: nat) -> H decreases h { if h == 0 { ls[a] } else { mergeh(nv(ls, a, (h - 1) as nat), nv(ls, a + pow2((h - 1) as nat), (h - 1) as nat)) } }
pub open spec fn node(p: nat) -> (nat, nat) { choose|r: (nat, nat)| #[trigger] isnode(p, r.0, r.1) }
pub open spec fn hgt(p: nat) -> nat { node(p).1 }
// the hash at position p
pub open spec fn val(ls: Seq<H>, p: nat) -> H { nv(ls, node(p).0 + 1 - pow2(node(p).1), node(p).1) }
pub proof fn node_is(p: nat, i: nat, h: nat) requires isnode(p, i, h) ensures node(p) == (i, h), hgt(p) == h
{ let r = (i, h); assert(isnode(p, r.0, r.1)); let n = node(p); node_unique(p, i, h, n.0, n.1); }
pub proof fn node_some(p: nat) ensures isnode(p, node(p).0, node(p).1) { let r = node_of(p); assert(isnode(p, r.0, r.1)); }
// the root: peaks folded from the right, the right one first
pub open spec fn bag(v: Seq<H>) -> H decreases v.len() { if v.len() <= 1 { v[0] } else { mergeh(bag(v.drop_first()), v[0]) } }
pub open spec fn peak_vals(n: nat, ls: Seq<H>) -> Seq<H> { peaks_from(0, n, 64).map_values(|p: u64| val(ls, p as nat)) }
pub open spec fn mroot(n: nat, ls: Seq<H>) -> H { bag(peak_vals(n, ls)) }
pub open spec fn lhs(l: Seq<Seq<u8>>) -> Seq<H> { l.map_values(|v: Seq<u8>| leafh(v)) }
pub open spec fn hs(v: Seq<MmrNode>) -> Seq<H> { v.map_values(|x: MmrNode| x.hash) }
pub proof fn bag_two(s: Seq<H>, l: H, r: H) ensures bag(s.push(l).push(r)) == bag(s.push(mergeh(r, l))) decreases s.len()
{
    let a = s.push(l).push(r); let b = s.push(mergeh(r, l));
    if s.len() == 0 { assert(a.drop_first() =~= seq![r]); assert(bag(seq![r]) == r); }
    else { let t = s.drop_first(); bag_two(t, l, r); assert(a.drop_first() =~= t.push(l).push(r)); assert(b.drop_first() =~= t.push(mergeh(r, l))); assert(a[0] == s[0] && b[0] == s[0]); }
}
// ---- siblings and parents ----
pub proof fn lemma_pc_mul(k: nat, a: nat, m: nat) requires m <= k ensures pc((pow2(k) * a + (pow2(m) - 1)) as nat) == pc(a) + m, pow2(m) >= 1 decreases k
{
    lemma2_to64(); lemma_pow2_pos(m);
    if k == 0 { assert(pow2(k) * a == a) by (nonlinear_arith) requires pow2(k) == 1; assert((pow2(k) * a + (pow2(m) - 1)) as nat == a); }
    else {
        lemma_pow2_unfold(k); let b = pow2((k - 1) as nat); let x = (pow2(k) * a + (pow2(m) - 1)) as nat;
        assert(pow2(k) * a == 2 * (b * a)) by (nonlinear_arith) requires pow2(k) == 2 * b;
        if m == 0 { lemma_pc_mul((k - 1) as nat, a, 0); assert(x % 2 == 0 && x / 2 == b * a); if x == 0 { assert(pc(0) == 0); } else { assert(pc(x) == pc(x / 2)); } }
        else { lemma_pow2_unfold(m); lemma_pc_mul((k - 1) as nat, a, (m - 1) as nat); let c = pow2((m - 1) as nat); assert(x == 2 * (b * a) + 2 * c - 1); assert(x % 2 == 1 && x / 2 == b * a + c - 1); assert(pc(x) == 1 + pc(x / 2)); }
    }
}
pub proof fn lemma_tz_mul(k: nat, a: nat) requires a > 0 ensures tz((pow2(k) * a) as nat) == k + tz(a), pow2(k) * a > 0 decreases k
{
    lemma2_to64(); lemma_pow2_pos(k); assert(pow2(k) * a > 0) by (nonlinear_arith) requires pow2(k) > 0, a > 0;
    if k > 0 { lemma_pow2_unfold(k); let b = pow2((k - 1) as nat); lemma_tz_mul((k - 1) as nat, a); assert(pow2(k) * a == 2 * (b * a)) by (nonlinear_arith) requires pow2(k) == 2 * b; let x = (pow2(k) * a) as nat; assert(x % 2 == 0 && x / 2 == b * a); }
    else { assert(pow2(k) * a == a) by (nonlinear_arith) requires pow2(k) == 1; }
}
// n = 2^tz * odd
pub proof fn lemma_tz_odd(n: nat) -> (q: nat) requires n > 0 ensures n == pow2(tz(n)) * q, q % 2 == 1 decreases n
{
    lemma2_to64();
    if n % 2 == 1 { assert(pow2(0) * n == n) by (nonlinear_arith) requires pow2(0) == 1; n } else { let q = lemma_tz_odd(n / 2); lemma_pow2_unfold((1 + tz(n / 2)) as nat); let b = pow2(tz(n / 2)); assert((2 * b) * q == 2 * (b * q)) by (nonlinear_arith); assert(tz(n) == 1 + tz(n / 2)); assert(n == 2 * (n / 2)); q }
}
// the children of the node made by merge h + 1 of the push of leaf i
pub proof fn lemma_children(i: nat, h: nat) requires h < tz((i + 1) as nat)
    ensures pow2(h) <= i, tz((i - pow2(h) + 1) as nat) == h, msize(i) == msize((i - pow2(h)) as nat) + pow2(h + 1) - 1, pow2(h + 1) <= i + 1
{
    let t = tz((i + 1) as nat); let q = lemma_tz_odd((i + 1) as nat); lemma_pow2_adds((h + 1) as nat, (t - h - 1) as nat);
    let z = pow2((t - h - 1) as nat) * q; lemma_pow2_pos((t - h - 1) as nat); lemma_pow2_pos(h); lemma_pow2_unfold(h + 1);
    assert(z >= 1) by (nonlinear_arith) requires z == pow2((t - h - 1) as nat) * q, pow2((t - h - 1) as nat) > 0, q >= 1;
    assert(i + 1 == pow2(h + 1) * z) by (nonlinear_arith) requires i + 1 == pow2(t) * q, pow2(t) == pow2(h + 1) * pow2((t - h - 1) as nat), z == pow2((t - h - 1) as nat) * q;
    let a = (z - 1) as nat; let c = pow2(h + 1); let b = pow2(h);
    assert(i + 1 == c * a + c && c * z >= c) by (nonlinear_arith) requires i + 1 == c * z, a == z - 1, z >= 1;
    lemma_pc_mul((h + 1) as nat, a, (h + 1) as nat); lemma_pc_mul((h + 1) as nat, a, h);
    let j = (i - b) as nat; assert(j == c * a + (b - 1)); assert(i == c * a + (c - 1));
    lemma_msize(i); lemma_msize(j);
    assert(b * (2 * a + 1) == c * a + b) by (nonlinear_arith) requires c == 2 * b;
    lemma_tz_mul(h, (2 * a + 1) as nat); assert(tz((2 * a + 1) as nat) == 0);
}
// the node after this one: a parent, if this is a right child; a leaf, if it is a left child
pub proof fn lemma_right(p: nat, i: nat, h: nat) requires isnode(p, i, h), h < tz((i + 1) as nat)
    ensures isnode((p + 1) as nat, i, (h + 1) as nat), pow2(h + 1) - 1 <= p, isnode((p - (pow2(h + 1) - 1)) as nat, (i - pow2(h)) as nat, h), pow2(h) <= i,
        hgt(p) == h, hgt((p + 1) as nat) == h + 1, hgt((p - (pow2(h + 1) - 1)) as nat) == h,
        forall|ls: Seq<H>| #[trigger] val(ls, (p + 1) as nat) == mergeh(val(ls, (p - (pow2(h + 1) - 1)) as nat), val(ls, p)),
{
    lemma_children(i, h); lemma_pow2_unfold(h + 1); let j = (i - pow2(h)) as nat; let s = (p - (pow2(h + 1) - 1)) as nat; assert(s == at(j, h));
    node_is(p, i, h); node_is((p + 1) as nat, i, (h + 1) as nat); node_is(s, j, h);
    assert forall|ls: Seq<H>| #[trigger] val(ls, (p + 1) as nat) == mergeh(val(ls, s), val(ls, p)) by { assert(nv(ls, i + 1 - pow2((h + 1) as nat), (h + 1) as nat) == mergeh(nv(ls, i + 1 - pow2((h + 1) as nat), h), nv(ls, i + 1 - pow2((h + 1) as nat) + pow2(h), h))); }
}
pub proof fn lemma_left(p: nat, i: nat, h: nat) requires isnode(p, i, h), h == tz((i + 1) as nat)
    ensures hgt((p + 1) as nat) == 0, hgt(p) == h, isnode((p + pow2(h + 1) - 1) as nat, (i + pow2(h)) as nat, h), h < tz((i + pow2(h) + 1) as nat),
        hgt((p + pow2(h + 1)) as nat) == h + 1, hgt((p + pow2(h + 1) - 1) as nat) == h, pow2(h + 1) >= 1,
        forall|ls: Seq<H>| #[trigger] val(ls, (p + pow2(h + 1)) as nat) == mergeh(val(ls, p), val(ls, (p + pow2(h + 1) - 1) as nat)),
        p + 1 <= u64::MAX && p + 1 < 0xffff_ffff_ffff_ffff ==> h <= 62 && p + pow2(h + 1) < u64::MAX
{
    lemma_pow2_unfold(h + 1); lemma_pow2_pos(h);
    assert(msize((i + 1) as nat) == msize(i) + 1 + tz((i + 1) as nat)); assert(isnode((p + 1) as nat, (i + 1) as nat, 0)); node_is((p + 1) as nat, (i + 1) as nat, 0); node_is(p, i, h);
    let q = lemma_tz_odd((i + 1) as nat); let b = pow2(h); let k = (i + b) as nat;
    assert(k + 1 == b * (q + 1)) by (nonlinear_arith) requires i + 1 == b * q, k == i + b;
    lemma_tz_mul(h, (q + 1) as nat); assert(tz((q + 1) as nat) == 1 + tz(((q + 1) / 2) as nat));
    lemma_children(k, h); assert((k - b) as nat == i); let s = (p + pow2(h + 1) - 1) as nat; assert(s == at(k, h)); assert(isnode(s, k, h)); lemma_right(s, k, h);
    assert((s + 1) as nat == (p + pow2(h + 1)) as nat); assert((s - (pow2(h + 1) - 1)) as nat == p);
    if p + 1 < 0xffff_ffff_ffff_ffff { lemma_top(p, i, h, q); }
}
// no parent within 64 bits lies past the top of the largest range
pub proof fn lemma_top(p: nat, i: nat, h: nat, q: nat) requires isnode(p, i, h), h == tz((i + 1) as nat), i + 1 == pow2(h) * q, q % 2 == 1, p + 1 < 0xffff_ffff_ffff_ffff
    ensures h <= 62, p + pow2(h + 1) < u64::MAX
{
    let m = 0x8000_0000_0000_0000nat; lemma2_to64(); lemma_pow2_unfold(64); lemma_pow2_pos(63); assert(pow2(63) == m);
    lemma_msize_add(63, 0); assert(msize(0) == 0); assert(msize(m) == 0xffff_ffff_ffff_ffff);
    assert(msize((i + 1) as nat) == msize(i) + 1 + h);
    if i + 1 > m { lemma_msize_mono(m, (i + 1) as nat); }
    if i + 1 >= m { if i + 1 > m { if i > m { lemma_msize_mono(m, i); } assert(false); } assert(i + 1 == m); assert(p + 1 == msize(m)); assert(false); }
    // h <= 62, since 2^h divides i + 1 < 2^63
    if h >= 63 { if h > 63 { lemma_pow2_strictly_increases(63, h); } assert(pow2(h) * q >= pow2(h)) by (nonlinear_arith) requires q >= 1; assert(false); }
    // the next multiple of 2^h is at most 2^63
    lemma_pow2_adds(h, (63 - h) as nat); let b = pow2(h); let c = pow2((63 - h) as nat);
    assert(q < c) by (nonlinear_arith) requires b * q < b * c, b > 0; 
    assert(b * (q + 1) <= b * c) by (nonlinear_arith) requires q + 1 <= c, b > 0;
    let k = (i + b) as nat; assert(k + 1 == b * (q + 1)) by (nonlinear_arith) requires i + 1 == b * q, k == i + b;
    lemma_tz_mul(h, (q + 1) as nat); assert(tz((q + 1) as nat) == 1 + tz(((q + 1) / 2) as nat)); lemma_children(k, h); assert((k - b) as nat == i);
    assert(msize((k + 1) as nat) == msize(k) + 1 + tz((k + 1) as nat)); if k + 1 < m { lemma_msize_mono((k + 1) as nat, m); }
    lemma_pow2_unfold(h + 1);
}
pub proof fn peaks_below(base: nat, r: nat, k: nat) requires r < pow2(k), base + msize(r) <= u64::MAX, k <= 64 ensures forall|j: int| 0 <= j < peaks_from(base, r, k).len() ==> #[trigger] peaks_from(base, r, k)[j] < base + msize(r) decreases k
{
    if k > 0 {
        lemma_pow2_unfold(k); let j = (k - 1) as nat; let p = pow2(j); lemma_pow2_pos(j);
        if r >= p {
            lemma_msize_add(j, (r - p) as nat); peaks_below((base + pow2(k) - 1) as nat, (r - p) as nat, j);
            let rest = peaks_from((base + pow2(k) - 1) as nat, (r - p) as nat, j); let x = (base + pow2(k) - 2) as u64; let all = peaks_from(base, r, k);
            assert(p + (r - p) as nat == r); assert(base + pow2(k) - 1 + msize((r - p) as nat) == base + msize(r)); assert(all == seq![x] + rest); assert(pow2(k) >= 2); assert(x < base + msize(r));
            assert forall|m: int| 0 <= m < all.len() implies #[trigger] all[m] < base + msize(r) by { if m > 0 { assert(all[m] == rest[m - 1]); assert(rest[m - 1] < base + pow2(k) - 1 + msize((r - p) as nat)); } else { assert(all[0] == x); } }
        } else { peaks_below(base, r, j); assert(peaks_from(base, r, k) == peaks_from(base, r, j)); }
    }
}
