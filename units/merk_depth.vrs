// C27: how deep a balanced tree can be, and how its depth is split into chunks. merk/src/proofs/branch/depth.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Debug)] #[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
// ---- balanced trees ----------------------------------------------------------
pub enum Tr { Nil, Node(Box<Tr>, Box<Tr>) }
pub open spec fn height(t: Tr) -> int decreases t { match t { Tr::Nil => 0, Tr::Node(l, r) => 1 + if height(*l) >= height(*r) { height(*l) } else { height(*r) } } }
pub open spec fn size(t: Tr) -> int decreases t { match t { Tr::Nil => 0, Tr::Node(l, r) => 1 + size(*l) + size(*r) } }
pub open spec fn balanced(t: Tr) -> bool decreases t { match t { Tr::Nil => true, Tr::Node(l, r) => balanced(*l) && balanced(*r) && -1 <= height(*l) - height(*r) <= 1 } }
// the fewest and the most nodes of a balanced tree of height h
#[verifier::memoize] pub open spec fn least(h: int) -> int decreases h { if h <= 0 { 0 } else if h == 1 { 1 } else { 1 + least(h - 1) + least(h - 2) } }
pub open spec fn most(h: int) -> int decreases h { if h <= 0 { 0 } else { 2 * most(h - 1) + 1 } }
pub open spec fn is_tree(t: Tr, h: int, n: int) -> bool { balanced(t) && height(t) == h && size(t) == n }
pub open spec fn can(h: int, n: int) -> bool { exists|t: Tr| #[trigger] is_tree(t, h, n) }
// the greatest height of a balanced tree of n nodes
pub open spec fn max_height(h: int, n: int) -> bool { can(h, n) && forall|t: Tr| balanced(t) && #[trigger] size(t) == n ==> height(t) <= h }
pub proof fn lemma_least_mono(a: int, b: int) requires a <= b ensures 0 <= least(a) <= least(b), 0 <= a < b ==> least(a) < least(b) decreases b - a
{ if a < b && b > 0 { lemma_least_step(b); lemma_least_mono(a, b - 1); } else { lemma_least_pos(a); lemma_least_pos(b); } }
pub proof fn lemma_least_pos(h: int) ensures 0 <= least(h) decreases h { if h > 1 { lemma_least_pos(h - 1); lemma_least_pos(h - 2); } }
pub proof fn lemma_least_step(h: int) requires h >= 1 ensures least(h - 1) < least(h) { lemma_least_pos(h - 2); lemma_least_pos(h - 1); }
pub proof fn lemma_size_least(t: Tr) requires balanced(t) ensures least(height(t)) <= size(t), height(t) >= 0 decreases t
{
    if let Tr::Node(l, r) = t { lemma_size_least(*l); lemma_size_least(*r); let h = height(t); lemma_least_mono(h - 2, height(*l)); lemma_least_mono(h - 2, height(*r)); if h == 1 { lemma_least_pos(0); } }
}
// every next minimum is within the most of the height below it
pub proof fn lemma_least_most(h: int) requires h >= 0 ensures least(h + 1) <= most(h) + 1 decreases h
{ if h >= 2 { lemma_least_most(h - 1); lemma_least_most(h - 2); lemma_most_mono(h - 2, h - 1); } else if h == 1 { reveal_with_fuel(least, 4); reveal_with_fuel(most, 3); } else { assert(least(1) == 1); } }
pub proof fn lemma_most_mono(a: int, b: int) requires a <= b ensures 0 <= most(a) <= most(b) decreases b { if b > 0 { if a < b { lemma_most_mono(a, b - 1); } else { lemma_most_mono(a - 1, b - 1); } } }
// a balanced tree of height h exists for every size between the least and the most
pub proof fn lemma_can(h: int, n: int) requires h >= 0, least(h) <= n <= most(h) ensures can(h, n) decreases h
{
    if h == 0 { assert(is_tree(Tr::Nil, 0, 0)); assert(n == 0); }
    else if h == 1 { reveal_with_fuel(most, 3); reveal_with_fuel(height, 3); reveal_with_fuel(size, 3); reveal_with_fuel(balanced, 3); let t = Tr::Node(Box::new(Tr::Nil), Box::new(Tr::Nil)); assert(height(Tr::Nil) == 0 && size(Tr::Nil) == 0); assert(is_tree(t, 1, 1)); assert(n == 1); }
    else {
        lemma_least_most(h - 2); lemma_least_most(h - 1); lemma_most_mono(h - 2, h - 1); lemma_least_mono(h - 2, h - 1);
        let m = n - 1; let lo = least(h - 2); let l0 = least(h - 1); let hi = most(h - 1);
        // the smaller side takes as little as it can
        let b = if m - lo <= hi { lo } else { m - hi }; let a = m - b;
        assert(l0 <= a <= hi && lo <= b <= hi);
        lemma_can(h - 1, a); let x = choose|t: Tr| #[trigger] is_tree(t, h - 1, a);
        let hb = if b <= most(h - 2) { h - 2 } else { h - 1 };
        lemma_can(hb, b); let y = choose|t: Tr| #[trigger] is_tree(t, hb, b);
        assert(is_tree(Tr::Node(Box::new(x), Box::new(y)), h, n));
    }
}
pub proof fn theorem_max_height(h: int, n: int) requires h >= 0, least(h) <= n < least(h + 1) ensures max_height(h, n)
{
    lemma_least_most(h); lemma_can(h, n);
    assert forall|t: Tr| balanced(t) && #[trigger] size(t) == n implies height(t) <= h by { lemma_size_least(t); if height(t) > h { lemma_least_mono(h + 1, height(t)); } }
}
//@ rules
Error::InvalidInputError($x..) ==> err()
(tree_depth as u32).div_ceil(max_depth as u32) ==> div_up(tree_depth as u32, max_depth as u32)
!remaining.is_multiple_of(chunks_left as u8) ==> remaining % (chunks_left as u8) != 0
for i in 0..num_chunks { $b.. } ==> let mut i: u32 = 0; while i < num_chunks { $b i += 1; }
chunk.max(min_depth).min(max_depth) ==> min8(max8(chunk, min_depth), max_depth)
chunk.min(max_depth) ==> min8(chunk, max_depth)
vec![$x..] ==> one($x)
Ok((0..num_chunks).map(|i| { $b.. }).collect()) ==> { let mut v = Vec::new(); let mut i: u32 = 0; while i < num_chunks { v.push({ $b }); i += 1; } Ok(v) }
//@ end
pub fn one(x: u8) -> (r: Vec<u8>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
pub fn min8(a: u8, b: u8) -> (r: u8) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max8(a: u8, b: u8) -> (r: u8) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub open spec fn up(a: int, b: int) -> int { (a + b - 1) / b }
#[verifier::external_body] pub fn div_up(a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == up(a as int, b as int) { a.div_ceil(b) }
pub open spec fn sum(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
pub proof fn lemma_sum(s: Seq<u8>, x: u8) ensures sum(s.push(x)) == sum(s) + x { assert(s.push(x).drop_last() =~= s); }
// the documented sizes: as few chunks as the bound allows, as even as possible, the deeper ones first
pub open spec fn even(s: Seq<u8>, d: int, m: int) -> bool {
    &&& s.len() == if d <= m { 1 } else { up(d, m) }
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> 0 <= #[trigger] s[i] - #[trigger] s[j] <= 1
}
// n = up(d, m) chunks of at most m hold d, and fewer do not
pub proof fn lemma_parts(d: int, m: int) requires 0 <= d, 0 < m ensures ({ let n = up(d, m); n * m >= d && (d > 0 ==> n >= 1 && (n - 1) * m < d) && n <= d && (d > m ==> n >= 2) })
{
    let n = up(d, m); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d + m - 1, m); vstd::arithmetic::div_mod::lemma_mod_bound(d + m - 1, m);
    assert(m * n <= d + m - 1 < m * n + m); assert((n - 1) * m == m * n - m) by (nonlinear_arith); assert(n * m == m * n) by (nonlinear_arith);
    if d > 0 { assert(n >= 1) by (nonlinear_arith) requires m * n >= d, d > 0, m > 0; assert(n <= d) by (nonlinear_arith) requires m * n - m < d, m > 0, n >= 1, d >= 1; }
    else { assert(n == 0) by (nonlinear_arith) requires 0 <= d, d <= 0, m * n <= d + m - 1, d + m - 1 < m * n + m, m > 0; }
    if d > m { assert(n >= 2) by (nonlinear_arith) requires m * n >= d, d > m, m > 0; }
}
//@ fn merk/src/proofs/branch/depth.rs calculate_max_tree_depth_from_count
//@ ret r
//@ spec
  ensures least(r as int) <= count < least(r + 1), max_height(r as int, count as int),
//@ at start
  proof { assert(least(0) == 0 && least(1) == 1 && least(2) == 2); assert(least(91) == 12200160415121876737) by (compute_only); assert(least(92) == 19740274219868223166) by (compute_only); if count == 0 { theorem_max_height(0, 0); } }
//@ loop 1
  invariant 1 <= height <= 91, f_prev == least(height - 1) + 1, f_curr == least(height as int) + 1, least(height as int) <= count, least(91) == 12200160415121876737, least(92) == 19740274219868223166,
  decreases 92 - height
//@ loopstart 1
  proof { lemma_least_mono(height + 1, if height + 1 <= 91 { 91 } else { height + 1 }); assert(least(height + 1) == 1 + least(height as int) + least(height - 1)); if count < least(height + 1) { theorem_max_height(height as int, count as int); } }
//@ end
//@ fn merk/src/proofs/branch/depth.rs calculate_chunk_depths
//@ ret r
//@ spec
  ensures r is Ok == (max_depth > 0),
    r is Ok ==> sum(r.unwrap()@) == tree_depth && even(r.unwrap()@, tree_depth as int, max_depth as int),
//@ at start
  proof { if max_depth > 0 { lemma_parts(tree_depth as int, max_depth as int); } assert(sum(Seq::empty()) == 0); if tree_depth <= max_depth { lemma_sum(Seq::empty(), tree_depth); assert(Seq::<u8>::empty().push(tree_depth) =~= seq![tree_depth]); } }
//@ loop 1
  invariant i <= num_chunks, v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == base_depth + if k < remainder { 1int } else { 0 }, sum(v@) == i * base_depth + if i < remainder { i } else { remainder },
    base_depth + 1 <= 255, remainder < num_chunks,
  decreases num_chunks - i
//@ loopstart 1
  let ghost v0 = v@;
//@ preloop 1
  proof {
    let d = tree_depth as int; let n = num_chunks as int; let m = max_depth as int; let b = base_depth as int; let rem = remainder as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, n); vstd::arithmetic::div_mod::lemma_mod_bound(d, n);
    assert(n * b + rem == d);
    assert(b + 1 <= 255) by (nonlinear_arith) requires n >= 2, n * b + rem == d, d <= 255, rem >= 0;
    assert(b >= 0) by (nonlinear_arith) requires n >= 2, n * b + rem == d, d >= 0, rem < n;
    assert(b <= m && (rem > 0 ==> b < m)) by (nonlinear_arith) requires n * m >= d, n * b + rem == d, rem >= 0, n >= 2;
  }
//@ postloop 1
  proof { assert(i * base_depth == tree_depth - remainder) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(tree_depth as int, num_chunks as int); } }
//@ loopend 1
  proof { lemma_sum(v0, v@.last()); assert(v@ =~= v0.push(v@.last())); assert((i - 1) * base_depth + base_depth == i * base_depth) by (nonlinear_arith) requires i >= 1; }
//@ end
// with a minimum: as few chunks as the bound allows; the first at least the minimum; the ones after it even, the deeper ones first
pub open spec fn front(s: Seq<u8>, d: int, m: int, lo: int) -> bool {
    &&& s.len() == if d <= m { 1 } else { up(d, m) }
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m
    &&& d > m ==> s[0] >= lo && s[0] >= s[1] && (s[0] == lo || s[0] == up(d, up(d, m)))
    &&& forall|i: int, j: int| 1 <= i < j < s.len() ==> 0 <= #[trigger] s[i] - #[trigger] s[j] <= 1
}
// taking up(r, k) of r away leaves k - 1 shares of it, none larger
pub proof fn lemma_share(r: int, k: int, m: int) requires 0 <= r, k >= 1, r <= k * m, m >= 0
    ensures ({ let c = up(r, k); 0 <= c <= m && c <= r && r - c <= (k - 1) * c && (k == 1 ==> c == r) && c == r / k + if r % k != 0 { 1int } else { 0 } && r - c >= (k - 1) * (c - 1) })
{
    let c = up(r, k); let q = r / k; let x = r % k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, k); vstd::arithmetic::div_mod::lemma_mod_bound(r, k);
    assert(q >= 0) by (nonlinear_arith) requires r == k * q + x, x < k, r >= 0, k >= 1;
    if x == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r + k - 1, k, q, k - 1); assert(c == q); }
    else { assert(k * (q + 1) == k * q + k) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r + k - 1, k, q + 1, x - 1); assert(c == q + 1); }
    assert(c <= m) by (nonlinear_arith) requires r <= k * m, r == k * q + x, 0 <= x < k, c == q + if x != 0 { 1int } else { 0 }, k >= 1;
    assert(c <= r) by (nonlinear_arith) requires r == k * q + x, 0 <= x < k, c == q + if x != 0 { 1int } else { 0 }, k >= 1, q >= 0;
    assert(r - c <= (k - 1) * c && r - c >= (k - 1) * (c - 1)) by (nonlinear_arith) requires r == k * q + x, 0 <= x < k, c == q + if x != 0 { 1int } else { 0 }, k >= 1;
    if k == 1 { assert(x == 0); }
}
pub proof fn lemma_le(r: int, k: int, a: int) requires 0 <= r <= k * a, k >= 1, a >= 0 ensures up(r, k) <= a, r - up(r, k) <= (k - 1) * a
{ lemma_share(r, k, a); let c = up(r, k); assert((k - 1) * c <= (k - 1) * a) by (nonlinear_arith) requires c <= a, k >= 1; }
pub proof fn lemma_step(r: int, k: int, a: int) requires 0 <= r <= k * a, k * (a - 1) <= r, k >= 1, a >= 0 ensures 0 <= a - up(r, k) <= 1, (k - 1) * (a - 1) <= r - up(r, k) <= (k - 1) * a
{
    lemma_le(r, k, a); lemma_share(r, k, a); let c = up(r, k);
    assert(k * c >= r) by (nonlinear_arith) requires r - c <= (k - 1) * c;
    assert(c >= a - 1) by (nonlinear_arith) requires k * c >= r, k * (a - 1) <= r, k >= 1;
    if c == a { } else { assert(r - c >= (k - 1) * (a - 1)) by (nonlinear_arith) requires c == a - 1, k * (a - 1) <= r; }
}
//@ fn merk/src/proofs/branch/depth.rs calculate_chunk_depths_with_minimum
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures r is Ok == (max_depth > 0 && 0 < min_depth <= max_depth),
    r is Ok ==> sum(r.unwrap()@) == tree_depth && front(r.unwrap()@, tree_depth as int, max_depth as int, min_depth as int),
//@ at start
  let ghost d = tree_depth as int; let ghost m = max_depth as int; let ghost n = up(d, m);
  proof { if max_depth > 0 { lemma_parts(d, m); } assert(sum(Seq::empty()) == 0); lemma_sum(Seq::empty(), tree_depth); assert(Seq::<u8>::empty().push(tree_depth) =~= seq![tree_depth]); }
//@ preloop 1
  proof { lemma_share(d, n, m); }
//@ loop 1
  invariant i <= n, chunks@.len() == i, sum(chunks@) + remaining == d, i == 0 ==> remaining == d,
    forall|k: int| 0 <= k < i ==> #[trigger] chunks@[k] <= m,
    i >= 1 ==> chunks@[0] >= min_depth && (chunks@[0] == min_depth || chunks@[0] == up(d, n)) && remaining <= (n - i) * chunks@[0],
    i >= 2 ==> chunks@[0] >= chunks@[1],
    forall|a: int, b: int| 1 <= a < b < i ==> 0 <= #[trigger] chunks@[a] - #[trigger] chunks@[b] <= 1,
    forall|a: int| 1 <= a < i ==> (n - i) * (#[trigger] chunks@[a] - 1) <= remaining <= (n - i) * chunks@[a],
  decreases n - i
//@ loopstart 1
  let ghost c0 = chunks@; let ghost k = n - i; let ghost r0 = remaining as int;
  proof { assert(r0 <= k * m) by (nonlinear_arith) requires i >= 1 ==> r0 <= k * c0[0] && c0[0] <= m, k >= 1, i == 0 ==> k == n && r0 == d, n * m >= d, r0 >= 0, m >= 0, i >= 0; lemma_share(r0, k, m); }
//@ postloop 1
  proof { let z = n - i; let q = chunks@[1] as int; assert(remaining <= z * q && z == 0); assert(z * q == 0) by (nonlinear_arith) requires z == 0; assert(remaining == 0); }
//@ loopend 1
  proof {
    lemma_sum(c0, chunk); assert(chunks@ =~= c0.push(chunk)); let c = up(r0, k); let j = i as int; let x = chunk as int;
    let kk = k - 1; assert(n - i == kk);
    if i == 1 { assert(kk * c <= kk * x) by (nonlinear_arith) requires c <= x, kk >= 0; }
    else {
        assert(x == c); assert forall|a: int| 1 <= a < i implies kk * (#[trigger] chunks@[a] - 1) <= remaining <= kk * chunks@[a] && (a < i - 1 ==> 0 <= chunks@[a] - chunks@[i - 1] <= 1) by { if a < i - 1 { lemma_step(r0, k, c0[a] as int); } }
        lemma_le(r0, k, c0[0] as int);
    }
  }
//@ end
} // verus!
fn main() {}
