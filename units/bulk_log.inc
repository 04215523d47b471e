// ---- the log: chunks of 2^h values as blobs in a mountain range, the rest in a dense buffer ----
pub type Log = Seq<Seq<u8>>;
#[derive(Debug)] #[verifier::external_body] pub struct OtherError { x: u8 }
pub open spec fn vs(e: Seq<Vec<u8>>) -> Log { e.map_values(|v: Vec<u8>| v@) }
pub open spec fn mroot(s: Log) -> [u8; 32] { mm::mroot(s.len(), mm::lhs(s)) }
pub open spec fn droot(height: u8, s: Log) -> [u8; 32] { dn::th(s, dn::capacity(height), 0) }
pub open spec fn tag() -> Seq<u8> { seq![98u8, 117, 108, 107, 95, 115, 116, 97, 116, 101] } // "bulk_state"
pub open spec fn sroot(m: [u8; 32], d: [u8; 32]) -> [u8; 32] { dn::blake(tag() + m@ + d@) }
pub broadcast proof fn sroot_free(a: [u8; 32], b: [u8; 32], c: [u8; 32], d: [u8; 32]) ensures #[trigger] sroot(a, b) == #[trigger] sroot(c, d) ==> a == c && b == d
{
    let s = tag() + a@ + b@; let t = tag() + c@ + d@; dn::blake_inj(s, t);
    if s == t { assert(s.subrange(10, 42) =~= a@); assert(t.subrange(10, 42) =~= c@); assert(s.subrange(42, 74) =~= b@); assert(t.subrange(42, 74) =~= d@); dn::arr_eq(a, c); dn::arr_eq(b, d); }
}
//@ scope
//@ rules
b"bulk_state" ==> &[98u8, 117, 108, 107, 95, 115, 116, 97, 116, 101]
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/hash.rs compute_state_root
//@ rulefirst blake3::Hasher::new() ==> dn::Hasher::new()
//@ ret r
//@ spec
  ensures r == sroot(*mmr_root, *dense_tree_root)
//@ before hasher.finish
  proof { assert(hasher@ =~= tag() + mmr_root@ + dense_tree_root@); }
//@ end
//@ end scope
pub open spec fn msize(n: int) -> u64 { mm::msize(n as nat) as u64 }
pub proof fn lemma_half(t: int, c: int) requires 0 <= t <= u64::MAX, 2 <= c ensures 0 <= t / c <= 0x7fff_ffff_ffff_ffff
{ vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(t, 2, c); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t, c); }
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs leaf_count_to_mmr_size
//@ ret r
//@ spec
  requires leaf_count <= 0x7fff_ffff_ffff_ffff
  ensures r as nat == mm::msize(leaf_count as nat), r == msize(leaf_count as int), r == 0 <==> leaf_count == 0
//@ at start
  proof { mm::lemma_msize(leaf_count as nat); mm::lemma_pc_le(leaf_count as nat); if leaf_count > 0 { mm::lemma_msize_mono(0, leaf_count as nat); } assert(mm::msize(0) == 0); }
//@ end
pub open spec fn blob(vals: Log) -> Seq<u8> { bb::enc(vals) }
pub open spec fn fits(es: Log) -> bool { bb::fits(es) }
// the state of a log of these values: full chunks as blobs in the mountain range, the rest in the dense buffer
pub open spec fn cs(h: u8) -> int { vstd::arithmetic::power2::pow2(h as nat) as int }
pub open spec fn piece(log: Log, h: u8, k: int) -> Log { log.subrange(k * cs(h), k * cs(h) + cs(h)) }
pub open spec fn chunks(log: Log, h: u8) -> Log { Seq::new((log.len() as int / cs(h)) as nat, |k: int| blob(piece(log, h, k))) }
pub open spec fn buffer(log: Log, h: u8) -> Log { log.skip(log.len() as int / cs(h) * cs(h)) }
pub open spec fn zero32() -> [u8; 32] { dn::zero() }
pub fn zeros() -> (r: [u8; 32]) ensures r == zero32() { dn::zero_hash() }
pub open spec fn lroot(log: Log, h: u8) -> [u8; 32] {
    sroot(if chunks(log, h).len() == 0 { zero32() } else { mroot(chunks(log, h)) }, if buffer(log, h).len() == 0 { zero32() } else { droot(h, buffer(log, h)) })
}
pub open spec fn okval(log: Log) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).len() <= u32::MAX }
pub proof fn shl_pow(h: u8) requires 1 <= h <= 16 ensures 1u32 << h == cs(h), 2 <= cs(h) <= 65536
{
    broadcast use vstd::arithmetic::power2::lemma_pow2_adds;
    vstd::arithmetic::power2::lemma2_to64(); vstd::bits::lemma_u32_shl_is_mul(1, h as u32);
    assert(1u32 << h == 1u32 << (h as u32)) by (bit_vector);
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(0, h as nat);
    if h < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(h as nat, 16); }
}
pub proof fn lemma_in_chunk(k: int, i: int, c: int) requires 0 <= k, 0 <= i < c ensures (k * c + i) / c == k
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k * c + i, c, k, i); }
// position p lies in chunk p / c, and in no other
pub proof fn lemma_chunk_of(p: int, c: int) requires 0 <= p, 0 < c ensures 0 <= p / c, p / c * c <= p < p / c * c + c
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, c); vstd::arithmetic::mul::lemma_mul_is_commutative(c, p / c); vstd::arithmetic::div_mod::lemma_mod_bound(p, c); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, c); }
pub proof fn lemma_chunk_end(k: int, n: int, c: int) requires 0 <= k < n, 0 < c ensures 0 <= k * c, k * c + c <= n * c
{ vstd::arithmetic::mul::lemma_mul_inequality(k + 1, n, c); vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(c, k, 1); vstd::arithmetic::mul::lemma_mul_nonnegative(k, c); }
pub proof fn lemma_parts(n: int, c: int) requires 0 <= n, 2 <= c ensures n / c * c <= n, n - n / c * c == n % c, 0 <= n % c < c, 0 <= n / c
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c); vstd::arithmetic::div_mod::lemma_mod_bound(n, c); vstd::arithmetic::mul::lemma_mul_is_commutative(c, n / c); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, c); }
