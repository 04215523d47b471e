// C03: storage keys of positions. grovedb-merkle-mountain-range/src/helper.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_order.inc
pub struct Error;
pub fn err() -> (r: Error) { Error }
pub type KeyResult<T> = Result<T, Error>;
// big-endian: w bytes, most significant first
pub open spec fn be(x: nat, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { be(x / 256, (w - 1) as nat).push((x % 256) as u8) } }
// trusted: std's to_be_bytes and copy_from_slice
#[verifier::external_body] pub fn be32(x: u32) -> (r: [u8; 4]) ensures r@ == be(x as nat, 4) { x.to_be_bytes() }
#[verifier::external_body] pub fn be64(x: u64) -> (r: [u8; 8]) ensures r@ == be(x as nat, 8) { x.to_be_bytes() }
#[verifier::external_body] pub fn set4(d: &mut [u8; 8], s: &[u8; 4]) ensures final(d)@.subrange(0, 4) == s@ { d[..4].copy_from_slice(s) }
#[verifier::external_body] pub fn part<'a>(d: &'a [u8; 8], n: usize) -> (r: &'a [u8]) requires n <= 8 ensures r@ == d@.subrange(0, n as int) { &d[..n] }
//@ rules
crate::Error::InvalidInput($x..) ==> err()
&tagged.to_be_bytes() ==> &be32(tagged)
tagged.to_be_bytes() ==> be64(tagged)
pos.to_be_bytes() ==> be64(pos)
bytes[..4].copy_from_slice($x..) ==> set4(&mut bytes, $x)
&self.bytes[..self.len] ==> part(&self.bytes, self.len)
//@ end
//@ type grovedb-merkle-mountain-range/src/helper.rs MmrKeySize
//@ attr #[derive(Clone, Copy)]
//@ rule #[default] ==> 
//@ end
//@ type grovedb-merkle-mountain-range/src/helper.rs MmrKey
//@ const grovedb-merkle-mountain-range/src/helper.rs MAX_U32_MMR_POSITION

pub proof fn be_len(x: nat, w: nat) ensures be(x, w).len() == w decreases w { if w > 0 { be_len(x / 256, (w - 1) as nat); } }
pub proof fn klt_push(a: Seq<u8>, b: Seq<u8>, u: u8, v: u8)
    requires a.len() == b.len() ensures klt(a.push(u), b.push(v)) == (klt(a, b) || a == b && u < v)
    decreases a.len()
{
    let (x, y) = (a.push(u), b.push(v));
    if a.len() == 0 { assert(a =~= b); assert(x[0] == u && y[0] == v); assert(x.drop_first() =~= Seq::empty()); assert(y.drop_first() =~= Seq::empty()); assert(!klt(Seq::empty(), Seq::empty())); assert(!klt(a, b)); assert(klt(x, y) == (u < v)); }
    else {
        assert(x[0] == a[0] && y[0] == b[0]);
        assert(x.drop_first() =~= a.drop_first().push(u)); assert(y.drop_first() =~= b.drop_first().push(v));
        klt_push(a.drop_first(), b.drop_first(), u, v);
        assert(klt(x, y) == (if a[0] != b[0] { a[0] < b[0] } else { klt(x.drop_first(), y.drop_first()) }));
        assert(klt(a, b) == (if a[0] != b[0] { a[0] < b[0] } else { klt(a.drop_first(), b.drop_first()) }));
        if a == b { klt_irr(a); }
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    }
}
/// The keys of two numbers lie in the order of the numbers.
pub proof fn be_sorted(x: nat, y: nat, w: nat)
    requires x < y, w == 4 ==> y <= u32::MAX, w == 8 ==> y <= u64::MAX, w == 4 || w == 8
    ensures klt(be(x, w), be(y, w)), be(x, w) != be(y, w), !klt(be(y, w), be(x, w))
{
    assert(256nat * 256 * 256 * 256 == 0x1_0000_0000) by (compute);
    reveal_with_fuel(pow256, 9);
    be_lt(x, y, w); order();
}
pub open spec fn pow256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * pow256((w - 1) as nat) } }
pub proof fn be_lt(x: nat, y: nat, w: nat) requires x < y < pow256(w) ensures klt(be(x, w), be(y, w)) decreases w
{
    if w > 0 {
        let (a, b) = (x / 256, y / 256); let v = (w - 1) as nat;
        be_len(a, v); be_len(b, v);
        klt_push(be(a, v), be(b, v), (x % 256) as u8, (y % 256) as u8);
        assert(b < pow256(v)) by (nonlinear_arith) requires y < 256 * pow256(v), b == y / 256;
        if a < b { be_lt(a, b, v); }
    }
}
pub open spec fn kv(k: MmrKey) -> Seq<u8> { k.bytes@.subrange(0, k.len as int) }
// the key of a position, and the positions with keys of their own
pub open spec fn keyof(p: u64, s: MmrKeySize) -> Seq<u8> { match s { MmrKeySize::U32 => be(((p as u32) | 0x8000_0000u32) as nat, 4), MmrKeySize::U64 => be((p | 0x8000_0000_0000_0000u64) as nat, 8) } }
pub open spec fn fits(p: nat, s: MmrKeySize) -> bool { p < (match s { MmrKeySize::U32 => 0x8000_0000nat, MmrKeySize::U64 => 0x8000_0000_0000_0000nat }) }
/// C03: keys sort like the positions, and distinct positions have distinct keys.
pub proof fn keys_sorted(p: u64, q: u64, s: MmrKeySize)
    requires p < q, fits(q as nat, s) ensures klt(keyof(p, s), keyof(q, s)), keyof(p, s) != keyof(q, s), klt(be(p as nat, 8), be(q as nat, 8)), be(p as nat, 8) != be(q as nat, 8)
{
    be_sorted(p as nat, q as nat, 8);
    match s {
        MmrKeySize::U32 => { let x = p as u32; let y = q as u32; let a = x | 0x8000_0000u32; let b = y | 0x8000_0000u32;
            assert(a < b) by (bit_vector) requires a == x | 0x8000_0000u32, b == y | 0x8000_0000u32, x < y, y < 0x8000_0000u32;
            be_sorted(a as nat, b as nat, 4); }
        MmrKeySize::U64 => { let a = p | 0x8000_0000_0000_0000u64; let b = q | 0x8000_0000_0000_0000u64;
            assert(a < b) by (bit_vector) requires a == p | 0x8000_0000_0000_0000u64, b == q | 0x8000_0000_0000_0000u64, p < q, q < 0x8000_0000_0000_0000u64;
            be_sorted(a as nat, b as nat, 8); }
    }
}
impl MmrKey {
//@ fn grovedb-merkle-mountain-range/src/helper.rs AsRef<[u8]> for MmrKey::as_ref
//@ ret r
//@ spec
  requires self.len <= 8
  ensures r@ == kv(*self)
//@ end
}
//@ fn grovedb-merkle-mountain-range/src/helper.rs mmr_node_key
//@ ret r
//@ spec
  ensures r@ == be(pos as nat, 8)
//@ end
//@ fn grovedb-merkle-mountain-range/src/helper.rs mmr_node_key_sized
//@ sig crate::Result ==> KeyResult
//@ ret r
//@ spec
  ensures r is Ok <==> (key_size is U64 || pos < 0x8000_0000), r matches Ok(k) ==> k.len <= 8 && kv(k) == keyof(pos, key_size)
//@ at start
  proof { assert(1u64 << 31 == 0x8000_0000u64) by (bit_vector); be_len(((pos as u32) | 0x8000_0000u32) as nat, 4); be_len((pos | 0x8000_0000_0000_0000u64) as nat, 8); }
//@ before #2 Ok(MmrKey
  proof { let b = be((pos | 0x8000_0000_0000_0000u64) as nat, 8); assert(b.subrange(0, 8) =~= b); }
//@ end
} // verus!
fn main() {}
