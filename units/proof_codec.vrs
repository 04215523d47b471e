// rlimit: 200
// C22: the byte encoding of proof operations. grovedb-query/src/proofs/encoding.rs, tree_feature_type.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ rules
debug_assert!($x..); ==>
Error::$v($x..) ==> err()
ed::err() ==> ederr()
HASH_LENGTH ==> 32
[0; 32] ==> zero_hash()
vec![0; $x..] ==> zeros($x)
(value.len() as u16).encode_into(dest) ==> dest.put16(value.len() as u16)
(value.len() as u32).encode_into(dest) ==> dest.put32(value.len() as u32)
count.encode_into(dest) ==> dest.put64(*count)
dest.write_varint(*sum) ==> dest.put_vs(*sum)
dest.write_varint(*count) ==> dest.put_vu(*count)
dest.write_i128::<BigEndian>(*sum) ==> dest.put128(*sum)
count.encoding_length() ==> len64(*count)
count.encode_var_vec() ==> vu_vec(*count)
sum.encode_var_vec() ==> vs_vec(*sum)
let mut feature_type: [u8; 1] = [0]; input.read_exact(&mut feature_type)?; ==> let feature_type: u8 = input.get8()?;
[0] => ==> 0 =>
[1] => ==> 1 =>
[2] => ==> 2 =>
[3] => ==> 3 =>
[4] => ==> 4 =>
[5] => ==> 5 =>
[6] => ==> 6 =>
[b] => ==> b =>
let $n: u8 = Decode::decode(&mut input)?; ==> let $n: u8 = input.get8()?;
let $n: u16 = Decode::decode(&mut input)?; ==> let $n: u16 = input.get16()?;
let $n: u32 = Decode::decode(&mut input)?; ==> let $n: u32 = input.get32()?;
let $n: u64 = Decode::decode(&mut input)?; ==> let $n: u64 = input.get64()?;
let $n: u64 = input.read_varint()?; ==> let $n: u64 = input.get_vu()?;
let $n: i64 = input.read_varint()?; ==> let $n: i64 = input.get_vs()?;
let $n: i128 = input.read_i128::<BigEndian>()?; ==> let $n: i128 = input.get128()?;
input.read_exact($k.as_mut_slice()) ==> input.fill(&mut $k)
input.read_exact(&mut $k) ==> input.fill32(&mut $k)
TreeFeatureType::decode(&mut input) ==> TreeFeatureType::decode(input)
//@ end
//@ const grovedb-query/src/proofs/encoding.rs MAX_VALUE_LEN
pub type CryptoHash = [u8; 32];
//@ type grovedb-query/src/proofs/tree_feature_type.rs TreeFeatureType
//@ type grovedb-query/src/proofs/mod.rs Node
//@ type grovedb-query/src/proofs/mod.rs Op
use TreeFeatureType::*;
#[derive(Debug)] #[verifier::external_body] pub struct Error { x: u8 }
#[derive(Debug)] #[verifier::external_body] pub struct EdError { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
#[verifier::external_body] pub fn ederr() -> (r: EdError) { unimplemented!() }

// ---- big-endian integers -----------------------------------------------------
pub open spec fn be(n: nat, w: nat) -> Seq<u8> decreases w { if w == 0 { Seq::empty() } else { be(n / 256, (w - 1) as nat).push((n % 256) as u8) } }
pub open spec fn unbe(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { unbe(s.drop_last()) * 256 + s.last() as nat } }
pub open spec fn pow256(w: nat) -> nat decreases w { if w == 0 { 1 } else { 256 * pow256((w - 1) as nat) } }
pub proof fn be_len(n: nat, w: nat) ensures be(n, w).len() == w decreases w { if w > 0 { be_len(n / 256, (w - 1) as nat); } }
pub proof fn be_inv(n: nat, w: nat) requires n < pow256(w) ensures unbe(be(n, w)) == n decreases w
{ if w > 0 { be_len(n / 256, (w - 1) as nat); assert(n / 256 < pow256((w - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((w - 1) as nat); be_inv(n / 256, (w - 1) as nat); assert(be(n, w).drop_last() =~= be(n / 256, (w - 1) as nat)); } }
pub proof fn be_all() ensures forall|n: nat, w: nat| (#[trigger] be(n, w)).len() == w, forall|n: nat| n < 0x1_0000 ==> unbe(#[trigger] be(n, 2)) == n, forall|n: nat| n < 0x1_0000_0000 ==> unbe(#[trigger] be(n, 4)) == n,
    forall|n: nat| n < 0x1_0000_0000_0000_0000 ==> unbe(#[trigger] be(n, 8)) == n
{
    assert forall|n: nat, w: nat| (#[trigger] be(n, w)).len() == w by { be_len(n, w); }
    assert(pow256(2) == 0x1_0000 && pow256(4) == 0x1_0000_0000 && pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert forall|n: nat| n < 0x1_0000 implies unbe(#[trigger] be(n, 2)) == n by { be_inv(n, 2); }
    assert forall|n: nat| n < 0x1_0000_0000 implies unbe(#[trigger] be(n, 4)) == n by { be_inv(n, 4); }
    assert forall|n: nat| n < 0x1_0000_0000_0000_0000 implies unbe(#[trigger] be(n, 8)) == n by { be_inv(n, 8); }
}
// ---- trusted: varints (integer_encoding) and i128 (byteorder) -------------------
pub uninterp spec fn vu(n: u64) -> Seq<u8>;
pub uninterp spec fn pvu(s: Seq<u8>) -> Option<(u64, Seq<u8>)>;
pub uninterp spec fn vs(n: i64) -> Seq<u8>;
pub uninterp spec fn pvs(s: Seq<u8>) -> Option<(i64, Seq<u8>)>;
pub uninterp spec fn b128(n: i128) -> Seq<u8>;
pub uninterp spec fn un128(s: Seq<u8>) -> i128;
pub axiom fn axiom_vu(n: u64, r: Seq<u8>) ensures 1 <= vu(n).len() <= 10, pvu(vu(n) + r) == Some((n, r));
pub axiom fn axiom_vs(n: i64, r: Seq<u8>) ensures 1 <= vs(n).len() <= 10, pvs(vs(n) + r) == Some((n, r));
pub axiom fn axiom_128(n: i128) ensures b128(n).len() == 16, un128(b128(n)) == n;
#[verifier::external_body] pub fn vu_vec(n: u64) -> (r: Vec<u8>) ensures r@ == vu(n), 1 <= r@.len() <= 10 { unimplemented!() }
#[verifier::external_body] pub fn vs_vec(n: i64) -> (r: Vec<u8>) ensures r@ == vs(n), 1 <= r@.len() <= 10 { unimplemented!() }
pub fn len64(n: u64) -> (r: Result<usize, EdError>) ensures r is Ok && r.unwrap() == 8 { Ok(8) }
#[verifier::external_body] pub fn zero_hash() -> (r: [u8; 32]) { [0; 32] }
#[verifier::external_body] pub fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![0; n] }

// ---- trusted: the byte sink (W: Write) and the byte source (R: Read over a slice) ---
pub trait Bytes { spec fn bs(&self) -> Seq<u8>; }
impl Bytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl<const N: usize> Bytes for [u8; N] { open spec fn bs(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub struct Sink { x: Vec<u8> }
impl View for Sink { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Sink {
    #[verifier::external_body] pub fn write_all<B: Bytes>(&mut self, b: &B) -> (r: Result<(), EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + b.bs() { unimplemented!() }
    #[verifier::external_body] pub fn put16(&mut self, n: u16) -> (r: Result<(), EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + be(n as nat, 2) { unimplemented!() }
    #[verifier::external_body] pub fn put32(&mut self, n: u32) -> (r: Result<(), EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + be(n as nat, 4) { unimplemented!() }
    #[verifier::external_body] pub fn put64(&mut self, n: u64) -> (r: Result<(), EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + be(n as nat, 8) { unimplemented!() }
    #[verifier::external_body] pub fn put128(&mut self, n: i128) -> (r: Result<(), EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + b128(n) { unimplemented!() }
    #[verifier::external_body] pub fn put_vu(&mut self, n: u64) -> (r: Result<usize, EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + vu(n) { unimplemented!() }
    #[verifier::external_body] pub fn put_vs(&mut self, n: i64) -> (r: Result<usize, EdError>) ensures r is Ok ==> final(self)@ == old(self)@ + vs(n) { unimplemented!() }
}
pub open spec fn take(s: Seq<u8>, n: int) -> Option<(Seq<u8>, Seq<u8>)> { if 0 <= n <= s.len() { Some((s.take(n), s.skip(n))) } else { None } }
#[verifier::external_body] pub struct Src { x: Vec<u8> }
impl View for Src { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Src {
    #[verifier::external_body] pub fn of(b: &[u8]) -> (r: Self) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body] pub fn get8(&mut self) -> (r: Result<u8, EdError>) ensures r is Ok == take(old(self)@, 1) is Some, r is Ok ==> r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn get16(&mut self) -> (r: Result<u16, EdError>) ensures r is Ok == take(old(self)@, 2) is Some, r is Ok ==> r.unwrap() == unbe(old(self)@.take(2)) && final(self)@ == old(self)@.skip(2) { unimplemented!() }
    #[verifier::external_body] pub fn get32(&mut self) -> (r: Result<u32, EdError>) ensures r is Ok == take(old(self)@, 4) is Some, r is Ok ==> r.unwrap() == unbe(old(self)@.take(4)) && final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body] pub fn get64(&mut self) -> (r: Result<u64, EdError>) ensures r is Ok == take(old(self)@, 8) is Some, r is Ok ==> r.unwrap() == unbe(old(self)@.take(8)) && final(self)@ == old(self)@.skip(8) { unimplemented!() }
    #[verifier::external_body] pub fn get128(&mut self) -> (r: Result<i128, EdError>) ensures r is Ok == take(old(self)@, 16) is Some, r is Ok ==> r.unwrap() == un128(old(self)@.take(16)) && final(self)@ == old(self)@.skip(16) { unimplemented!() }
    #[verifier::external_body] pub fn get_vu(&mut self) -> (r: Result<u64, EdError>) ensures r is Ok == pvu(old(self)@) is Some, r is Ok ==> (r.unwrap(), final(self)@) == pvu(old(self)@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn get_vs(&mut self) -> (r: Result<i64, EdError>) ensures r is Ok == pvs(old(self)@) is Some, r is Ok ==> (r.unwrap(), final(self)@) == pvs(old(self)@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, b: &mut Vec<u8>) -> (r: Result<(), EdError>) ensures r is Ok == take(old(self)@, old(b)@.len() as int) is Some, r is Ok ==> (final(b)@, final(self)@) == take(old(self)@, old(b)@.len() as int).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn fill32(&mut self, b: &mut [u8; 32]) -> (r: Result<(), EdError>) ensures r is Ok == take(old(self)@, 32) is Some, r is Ok ==> (final(b)@, final(self)@) == take(old(self)@, 32).unwrap() { unimplemented!() }
}

// ---- feature types ----------------------------------------------------------------
pub open spec fn appft(s: Seq<u8>, f: TreeFeatureType) -> Seq<u8> {
    match f {
        BasicMerkNode => s + seq![0u8],
        SummedMerkNode(a) => s + seq![1u8] + vs(a),
        BigSummedMerkNode(a) => s + seq![2u8] + b128(a),
        CountedMerkNode(a) => s + seq![3u8] + vu(a),
        CountedSummedMerkNode(a, b) => s + seq![4u8] + vu(a) + vs(b),
        ProvableCountedMerkNode(a) => s + seq![5u8] + vu(a),
        ProvableCountedSummedMerkNode(a, b) => s + seq![6u8] + vu(a) + vs(b),
    }
}
pub open spec fn decft(s: Seq<u8>) -> Option<(TreeFeatureType, Seq<u8>)> {
    if s.len() == 0 { None } else { let r = s.skip(1); let t = s[0];
        if t == 0 { Some((BasicMerkNode, r)) }
        else if t == 1 { match pvs(r) { Some((a, r)) => Some((SummedMerkNode(a), r)), None => None } }
        else if t == 2 { match take(r, 16) { Some((a, r)) => Some((BigSummedMerkNode(un128(a)), r)), None => None } }
        else if t == 3 { match pvu(r) { Some((a, r)) => Some((CountedMerkNode(a), r)), None => None } }
        else if t == 4 { match pvu(r) { Some((a, r)) => match pvs(r) { Some((b, r)) => Some((CountedSummedMerkNode(a, b), r)), None => None }, None => None } }
        else if t == 5 { match pvu(r) { Some((a, r)) => Some((ProvableCountedMerkNode(a), r)), None => None } }
        else if t == 6 { match pvu(r) { Some((a, r)) => match pvs(r) { Some((b, r)) => Some((ProvableCountedSummedMerkNode(a, b), r)), None => None }, None => None } }
        else { None }
    }
}
pub proof fn cut(a: Seq<u8>, b: Seq<u8>) ensures (a + b).take(a.len() as int) == a, (a + b).skip(a.len() as int) == b { assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b); }
pub proof fn assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
// what is appended does not depend on what was there; it decodes to itself
pub proof fn ft_lemma(s: Seq<u8>, f: TreeFeatureType, rest: Seq<u8>)
    ensures appft(s, f) == s + appft(Seq::empty(), f), decft(appft(Seq::empty(), f) + rest) == Some((f, rest)), 1 <= appft(Seq::empty(), f).len() <= 21
{
    let e = Seq::<u8>::empty();
    match f {
        BasicMerkNode => { assert(appft(s, f) =~= s + appft(e, f)); cut(seq![0u8], rest); assert(e + seq![0u8] =~= seq![0u8]); }
        SummedMerkNode(a) => { axiom_vs(a, rest); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= vs(a) + rest); }
        BigSummedMerkNode(a) => { axiom_128(a); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= b128(a) + rest); cut(b128(a), rest); }
        CountedMerkNode(a) => { axiom_vu(a, rest); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= vu(a) + rest); }
        CountedSummedMerkNode(a, b) => { axiom_vu(a, vs(b) + rest); axiom_vs(b, rest); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= vu(a) + (vs(b) + rest)); }
        ProvableCountedMerkNode(a) => { axiom_vu(a, rest); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= vu(a) + rest); }
        ProvableCountedSummedMerkNode(a, b) => { axiom_vu(a, vs(b) + rest); axiom_vs(b, rest); assert(appft(s, f) =~= s + appft(e, f)); assert((appft(e, f) + rest).skip(1) =~= vu(a) + (vs(b) + rest)); }
    }
}
impl TreeFeatureType {
//@ fn grovedb-query/src/proofs/tree_feature_type.rs Encode for TreeFeatureType::encode_into
//@ ret r
//@ sig <W: Write> ==>
//@ sig &mut W ==> &mut Sink
//@ sig ed::Result<()> ==> Result<(), EdError>
//@ spec
  ensures r is Ok ==> final(dest)@ == appft(old(dest)@, *self),
//@ end
//@ fn grovedb-query/src/proofs/tree_feature_type.rs Encode for TreeFeatureType::encoding_length
//@ ret r
//@ sig ed::Result<usize> ==> Result<usize, EdError>
//@ spec
  ensures r is Ok, r.unwrap() == appft(Seq::empty(), *self).len(), 1 <= r.unwrap() <= 21,
//@ at start
  proof { ft_lemma(Seq::empty(), *self, Seq::empty()); match *self { BigSummedMerkNode(a) => { axiom_128(a); } _ => {} } }
//@ end
//@ fn grovedb-query/src/proofs/tree_feature_type.rs Decode for TreeFeatureType::decode
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  ensures r is Ok == decft(old(input)@) is Some, r is Ok ==> (r.unwrap(), final(input)@) == decft(old(input)@).unwrap(),
//@ end
}

// ---- operations -------------------------------------------------------------------
pub struct NodeV { pub kind: int, pub key: Seq<u8>, pub value: Seq<u8>, pub hash: Seq<u8>, pub ft: TreeFeatureType, pub count: u64, pub child: Seq<u8> }
pub enum OpV { Push(NodeV), PushInverted(NodeV), Parent, Child, ParentInverted, ChildInverted }
pub open spec fn mkn(kind: int, key: Seq<u8>, value: Seq<u8>, hash: Seq<u8>, ft: TreeFeatureType, count: u64, child: Seq<u8>) -> NodeV { NodeV { kind, key, value, hash, ft, count, child } }
pub open spec fn nv(n: Node) -> NodeV {
    let e = Seq::<u8>::empty();
    match n {
        Node::Hash(h) => mkn(0, e, e, h@, BasicMerkNode, 0, e),
        Node::KVHash(h) => mkn(1, e, e, h@, BasicMerkNode, 0, e),
        Node::KV(k, v) => mkn(2, k@, v@, e, BasicMerkNode, 0, e),
        Node::KVValueHash(k, v, h) => mkn(3, k@, v@, h@, BasicMerkNode, 0, e),
        Node::KVDigest(k, h) => mkn(4, k@, e, h@, BasicMerkNode, 0, e),
        Node::KVRefValueHash(k, v, h) => mkn(5, k@, v@, h@, BasicMerkNode, 0, e),
        Node::KVValueHashFeatureType(k, v, h, f) => mkn(6, k@, v@, h@, f, 0, e),
        Node::KVCount(k, v, c) => mkn(7, k@, v@, e, BasicMerkNode, c, e),
        Node::KVHashCount(h, c) => mkn(8, e, e, h@, BasicMerkNode, c, e),
        Node::KVRefValueHashCount(k, v, h, c) => mkn(9, k@, v@, h@, BasicMerkNode, c, e),
        Node::KVDigestCount(k, h, c) => mkn(10, k@, e, h@, BasicMerkNode, c, e),
        Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, c) => mkn(11, k@, v@, h@, f, 0, c@),
    }
}
pub open spec fn ov(o: Op) -> OpV { match o { Op::Push(n) => OpV::Push(nv(n)), Op::PushInverted(n) => OpV::PushInverted(nv(n)), Op::Parent => OpV::Parent, Op::Child => OpV::Child, Op::ParentInverted => OpV::ParentInverted, Op::ChildInverted => OpV::ChildInverted } }
// the fields a kind carries
pub open spec fn has_key(k: int) -> bool { k != 0 && k != 1 && k != 8 }
pub open spec fn has_val(k: int) -> bool { k == 2 || k == 3 || k == 5 || k == 6 || k == 7 || k == 9 || k == 11 }
pub open spec fn has_hash(k: int) -> bool { k != 2 && k != 7 }
pub open spec fn has_ft(k: int) -> bool { k == 6 || k == 11 }
pub open spec fn has_cnt(k: int) -> bool { 7 <= k <= 10 }
pub open spec fn has_child(k: int) -> bool { k == 11 }
pub open spec fn tag(k: int, inv: bool, long: bool) -> u8 {
    if long {
        if k == 2 { if inv { 0x28 } else { 0x20 } } else if k == 3 { if inv { 0x29 } else { 0x21 } } else if k == 5 { if inv { 0x2a } else { 0x22 } } else if k == 6 { if inv { 0x2b } else { 0x23 } }
        else if k == 7 { if inv { 0x2c } else { 0x24 } } else if k == 9 { if inv { 0x2d } else { 0x25 } } else { if inv { 0x2f } else { 0x2e } }
    } else {
        if k <= 6 { (k + if inv { 8int } else { 1 }) as u8 } else if k == 7 { if inv { 0x16 } else { 0x14 } } else if k == 8 { if inv { 0x17 } else { 0x15 } }
        else if k == 9 { if inv { 0x19 } else { 0x18 } } else if k == 10 { if inv { 0x1b } else { 0x1a } } else { if inv { 0x1d } else { 0x1c } }
    }
}
pub open spec fn is_tag(t: u8, k: int, inv: bool, long: bool) -> bool { 0 <= k <= 11 && (long ==> has_val(k)) && t == tag(k, inv, long) }
pub open spec fn untag(t: u8) -> Option<(int, bool, bool)> {
    if 1 <= t <= 7 { Some((t - 1, false, false)) } else if 8 <= t <= 0xe { Some((t - 8, true, false)) }
    else if t == 0x14 { Some((7, false, false)) } else if t == 0x16 { Some((7, true, false)) } else if t == 0x15 { Some((8, false, false)) } else if t == 0x17 { Some((8, true, false)) }
    else if t == 0x18 { Some((9, false, false)) } else if t == 0x19 { Some((9, true, false)) } else if t == 0x1a { Some((10, false, false)) } else if t == 0x1b { Some((10, true, false)) }
    else if t == 0x1c { Some((11, false, false)) } else if t == 0x1d { Some((11, true, false)) }
    else if t == 0x20 { Some((2, false, true)) } else if t == 0x21 { Some((3, false, true)) } else if t == 0x22 { Some((5, false, true)) } else if t == 0x23 { Some((6, false, true)) } else if t == 0x24 { Some((7, false, true)) } else if t == 0x25 { Some((9, false, true)) }
    else if t == 0x28 { Some((2, true, true)) } else if t == 0x29 { Some((3, true, true)) } else if t == 0x2a { Some((5, true, true)) } else if t == 0x2b { Some((6, true, true)) } else if t == 0x2c { Some((7, true, true)) } else if t == 0x2d { Some((9, true, true)) }
    else if t == 0x2e { Some((11, false, true)) } else if t == 0x2f { Some((11, true, true)) } else { None }
}
pub proof fn untag_tag(k: int, inv: bool, long: bool) requires 0 <= k <= 11, long ==> has_val(k) ensures untag(tag(k, inv, long)) == Some((k, inv, long)), !(0x10 <= tag(k, inv, long) <= 0x13) {}
pub open spec fn is_long(n: NodeV) -> bool { has_val(n.kind) && n.value.len() >= 65536 }
pub open spec fn appn(s: Seq<u8>, inv: bool, n: NodeV) -> Seq<u8> {
    let k = n.kind; let long = is_long(n);
    let s = if has_key(k) { s + seq![tag(k, inv, long), n.key.len() as u8] + n.key } else { s + seq![tag(k, inv, long)] };
    let s = if has_val(k) { if long { s + be(n.value.len(), 4) + n.value } else { s + be(n.value.len(), 2) + n.value } } else { s };
    let s = if has_hash(k) { s + n.hash } else { s };
    let s = if has_ft(k) { appft(s, n.ft) } else { s };
    let s = if has_cnt(k) { s + be(n.count as nat, 8) } else { s };
    if has_child(k) { s + n.child } else { s }
}
// the bytes of an operation, appended to s
pub open spec fn app(s: Seq<u8>, o: OpV) -> Seq<u8> {
    match o { OpV::Push(n) => appn(s, false, n), OpV::PushInverted(n) => appn(s, true, n), OpV::Parent => s + seq![0x10u8], OpV::Child => s + seq![0x11u8], OpV::ParentInverted => s + seq![0x12u8], OpV::ChildInverted => s + seq![0x13u8] }
}
pub open spec fn enc(o: OpV) -> Seq<u8> { app(Seq::empty(), o) }
// what the format can carry: keys up to 255 bytes, values up to 64 MiB
pub open spec fn wfn(n: NodeV) -> bool {
    &&& 0 <= n.kind <= 11 && n.key.len() <= 255 && n.value.len() <= 0x400_0000
    &&& (if has_key(n.kind) { true } else { n.key.len() == 0 }) && (if has_val(n.kind) { true } else { n.value.len() == 0 }) && (if has_hash(n.kind) { n.hash.len() == 32 } else { n.hash.len() == 0 })
    &&& (if has_ft(n.kind) { true } else { n.ft == BasicMerkNode }) && (if has_cnt(n.kind) { true } else { n.count == 0 }) && (if has_child(n.kind) { n.child.len() == 32 } else { n.child.len() == 0 })
}
pub open spec fn wf(o: OpV) -> bool { match o { OpV::Push(n) => wfn(n), OpV::PushInverted(n) => wfn(n), _ => true } }
// decoding, field by field
pub type P<T> = Option<(T, Seq<u8>)>;
pub open spec fn p_key(k: int, s: Seq<u8>) -> P<Seq<u8>> { if !has_key(k) { Some((Seq::empty(), s)) } else if s.len() == 0 { None } else { take(s.skip(1), s[0] as int) } }
pub open spec fn p_val(k: int, long: bool, s: Seq<u8>) -> P<Seq<u8>> {
    if !has_val(k) { Some((Seq::empty(), s)) } else { match take(s, if long { 4 } else { 2 }) { None => None, Some((l, r)) => if long && unbe(l) > 0x400_0000 { None } else { take(r, unbe(l) as int) } } }
}
pub open spec fn p_32(h: bool, s: Seq<u8>) -> P<Seq<u8>> { if !h { Some((Seq::empty(), s)) } else { take(s, 32) } }
pub open spec fn p_ft(k: int, s: Seq<u8>) -> P<TreeFeatureType> { if !has_ft(k) { Some((BasicMerkNode, s)) } else { decft(s) } }
pub open spec fn p_cnt(k: int, s: Seq<u8>) -> P<u64> { if !has_cnt(k) { Some((0, s)) } else { match take(s, 8) { None => None, Some((l, r)) => Some((unbe(l) as u64, r)) } } }
pub open spec fn decn(k: int, long: bool, s: Seq<u8>) -> P<NodeV> {
    match p_key(k, s) { None => None, Some((key, s)) =>
    match p_val(k, long, s) { None => None, Some((value, s)) =>
    match p_32(has_hash(k), s) { None => None, Some((hash, s)) =>
    match p_ft(k, s) { None => None, Some((ft, s)) =>
    match p_cnt(k, s) { None => None, Some((count, s)) =>
    match p_32(has_child(k), s) { None => None, Some((child, s)) => Some((NodeV { kind: k, key, value, hash, ft, count, child }, s)) } } } } } }
}
pub open spec fn dec(s: Seq<u8>) -> P<OpV> {
    if s.len() == 0 { None } else { let t = s[0]; let r = s.skip(1);
        if t == 0x10 { Some((OpV::Parent, r)) } else if t == 0x11 { Some((OpV::Child, r)) } else if t == 0x12 { Some((OpV::ParentInverted, r)) } else if t == 0x13 { Some((OpV::ChildInverted, r)) }
        else { match untag(t) { None => None, Some((k, inv, long)) => match decn(k, long, r) { None => None, Some((n, r)) => Some((if inv { OpV::PushInverted(n) } else { OpV::Push(n) }, r)) } } }
    }
}
// every encodable operation decodes to itself, whatever follows
pub open spec fn tail5(n: NodeV, rest: Seq<u8>) -> Seq<u8> { if has_child(n.kind) { n.child + rest } else { rest } }
pub open spec fn tail4(n: NodeV, rest: Seq<u8>) -> Seq<u8> { if has_cnt(n.kind) { be(n.count as nat, 8) + tail5(n, rest) } else { tail5(n, rest) } }
pub open spec fn tail3(n: NodeV, rest: Seq<u8>) -> Seq<u8> { if has_ft(n.kind) { appft(Seq::empty(), n.ft) + tail4(n, rest) } else { tail4(n, rest) } }
pub open spec fn tail2(n: NodeV, rest: Seq<u8>) -> Seq<u8> { if has_hash(n.kind) { n.hash + tail3(n, rest) } else { tail3(n, rest) } }
pub open spec fn tail1(n: NodeV, rest: Seq<u8>) -> Seq<u8> { if has_val(n.kind) { be(n.value.len(), if is_long(n) { 4 } else { 2 }) + (n.value + tail2(n, rest)) } else { tail2(n, rest) } }
pub open spec fn tail0(n: NodeV, inv: bool, rest: Seq<u8>) -> Seq<u8> { if has_key(n.kind) { seq![tag(n.kind, inv, is_long(n)), n.key.len() as u8] + (n.key + tail1(n, rest)) } else { seq![tag(n.kind, inv, is_long(n))] + tail1(n, rest) } }
pub proof fn app_tail(s: Seq<u8>, inv: bool, n: NodeV, rest: Seq<u8>) ensures appn(s, inv, n) + rest == s + tail0(n, inv, rest)
{
    let k = n.kind; let long = is_long(n);
    let s1 = if has_key(k) { s + seq![tag(k, inv, long), n.key.len() as u8] + n.key } else { s + seq![tag(k, inv, long)] };
    let s2 = if has_val(k) { if long { s1 + be(n.value.len(), 4) + n.value } else { s1 + be(n.value.len(), 2) + n.value } } else { s1 };
    let s3 = if has_hash(k) { s2 + n.hash } else { s2 };
    let s4 = if has_ft(k) { appft(s3, n.ft) } else { s3 };
    let s5 = if has_cnt(k) { s4 + be(n.count as nat, 8) } else { s4 };
    assoc(s5, n.child, rest);
    assert(appn(s, inv, n) + rest == s5 + tail5(n, rest));
    assoc(s4, be(n.count as nat, 8), tail5(n, rest));
    assert(s5 + tail5(n, rest) == s4 + tail4(n, rest));
    ft_lemma(s3, n.ft, rest); assoc(s3, appft(Seq::empty(), n.ft), tail4(n, rest));
    assert(s4 + tail4(n, rest) == s3 + tail3(n, rest));
    assoc(s2, n.hash, tail3(n, rest));
    assert(s3 + tail3(n, rest) == s2 + tail2(n, rest));
    let b = be(n.value.len(), if long { 4 } else { 2 }); assoc(s1 + b, n.value, tail2(n, rest)); assoc(s1, b, n.value + tail2(n, rest));
    assert(s2 + tail2(n, rest) == s1 + tail1(n, rest));
    let h = seq![tag(k, inv, long), n.key.len() as u8]; assoc(s + h, n.key, tail1(n, rest)); assoc(s, h, n.key + tail1(n, rest)); assoc(s, seq![tag(k, inv, long)], tail1(n, rest));
    assert(s1 + tail1(n, rest) == s + tail0(n, inv, rest));
}
pub proof fn t_key(n: NodeV, inv: bool, rest: Seq<u8>) requires wfn(n) ensures tail0(n, inv, rest).len() > 0, tail0(n, inv, rest)[0] == tag(n.kind, inv, is_long(n)), p_key(n.kind, tail0(n, inv, rest).skip(1)) == Some((n.key, tail1(n, rest)))
{
    let k = n.kind; let t1 = tail1(n, rest); let s = tail0(n, inv, rest); let r = s.skip(1);
    if has_key(k) { let h = seq![tag(k, inv, is_long(n)), n.key.len() as u8]; assert(s == h + (n.key + t1)); assert(r =~= seq![n.key.len() as u8] + (n.key + t1)); assert(r.skip(1) =~= n.key + t1); cut(n.key, t1); }
    else { assert(s == seq![tag(k, inv, is_long(n))] + t1); assert(r =~= t1); assert(n.key =~= Seq::empty()); }
}
pub proof fn t_val(n: NodeV, rest: Seq<u8>) requires wfn(n) ensures p_val(n.kind, is_long(n), tail1(n, rest)) == Some((n.value, tail2(n, rest)))
{
    be_all(); let b = be(n.value.len(), if is_long(n) { 4 } else { 2 });
    if has_val(n.kind) { cut(b, n.value + tail2(n, rest)); cut(n.value, tail2(n, rest)); } else { assert(n.value =~= Seq::empty()); }
}
pub proof fn t_hash(n: NodeV, rest: Seq<u8>) requires wfn(n) ensures p_32(has_hash(n.kind), tail2(n, rest)) == Some((n.hash, tail3(n, rest)))
{ if has_hash(n.kind) { cut(n.hash, tail3(n, rest)); } else { assert(n.hash =~= Seq::empty()); } }
pub proof fn t_ft(n: NodeV, rest: Seq<u8>) requires wfn(n) ensures p_ft(n.kind, tail3(n, rest)) == Some((n.ft, tail4(n, rest)))
{ ft_lemma(Seq::empty(), n.ft, tail4(n, rest)); }
pub proof fn t_cnt(n: NodeV, rest: Seq<u8>) requires wfn(n) ensures p_cnt(n.kind, tail4(n, rest)) == Some((n.count, tail5(n, rest)))
{ be_all(); cut(be(n.count as nat, 8), tail5(n, rest)); }
pub proof fn t_child(n: NodeV, rest: Seq<u8>) requires wfn(n) ensures p_32(has_child(n.kind), tail5(n, rest)) == Some((n.child, rest))
{ if has_child(n.kind) { cut(n.child, rest); } else { assert(n.child =~= Seq::empty()); } }
pub proof fn t_all(n: NodeV, rest: Seq<u8>, r: Seq<u8>) requires wfn(n), p_key(n.kind, r) == Some((n.key, tail1(n, rest))) ensures decn(n.kind, is_long(n), r) == Some((n, rest))
{
    hide(p_key); hide(p_val); hide(p_32); hide(p_ft); hide(p_cnt); hide(tail1); hide(tail2); hide(tail3); hide(tail4); hide(tail5);
    t_val(n, rest); t_hash(n, rest); t_ft(n, rest); t_cnt(n, rest); t_child(n, rest);
}
pub proof fn node_round_trip(n: NodeV, inv: bool, rest: Seq<u8>) requires wfn(n) ensures dec(appn(Seq::empty(), inv, n) + rest) == Some((if inv { OpV::PushInverted(n) } else { OpV::Push(n) }, rest))
{
    hide(decn); hide(tail0); hide(appn); hide(tag); hide(untag);
    let e = Seq::<u8>::empty(); let s = tail0(n, inv, rest);
    app_tail(e, inv, n, rest); untag_tag(n.kind, inv, is_long(n)); assert(e + s =~= s);
    t_key(n, inv, rest); t_all(n, rest, s.skip(1));
}
pub proof fn round_trip(o: OpV, rest: Seq<u8>) requires wf(o) ensures dec(enc(o) + rest) == Some((o, rest)), enc(o).len() > 0
{
    let e = Seq::<u8>::empty();
    match o {
        OpV::Push(n) => { node_round_trip(n, false, rest); app_tail(e, false, n, e); assert(appn(e, false, n) + e =~= appn(e, false, n)); }
        OpV::PushInverted(n) => { node_round_trip(n, true, rest); app_tail(e, true, n, e); assert(appn(e, true, n) + e =~= appn(e, true, n)); }
        _ => { assert((enc(o) + rest).skip(1) =~= rest); }
    }
}
pub proof fn app_enc(s: Seq<u8>, o: OpV) ensures app(s, o) == s + enc(o)
{
    let e = Seq::<u8>::empty();
    match o {
        OpV::Push(n) => { app_tail(s, false, n, e); app_tail(e, false, n, e); assert(e + tail0(n, false, e) =~= tail0(n, false, e)); assert(appn(s, false, n) + e =~= appn(s, false, n)); assert(appn(e, false, n) + e =~= appn(e, false, n)); }
        OpV::PushInverted(n) => { app_tail(s, true, n, e); app_tail(e, true, n, e); assert(e + tail0(n, true, e) =~= tail0(n, true, e)); assert(appn(s, true, n) + e =~= appn(s, true, n)); assert(appn(e, true, n) + e =~= appn(e, true, n)); }
        _ => { assert(app(s, o) =~= s + enc(o)); }
    }
}
// every decoded operation can be encoded again
pub proof fn dec_wf(s: Seq<u8>) requires dec(s) is Some ensures wf(dec(s).unwrap().0) {
    let t = s[0];
    if !(0x10 <= t <= 0x13) {
        let (k, inv, long) = untag(t).unwrap(); let s1 = s.skip(1); let s2 = p_key(k, s1).unwrap().1;
        let n = decn(k, long, s1).unwrap().0;
        assert(n.value.len() <= 0x400_0000) by { if has_val(k) { let l = s2.take(if long { 4 } else { 2 }); if !long { unbe2(l); } } }
    }
}
pub proof fn unbe2(l: Seq<u8>) requires l.len() == 2 ensures unbe(l) < 65536 { reveal_with_fuel(unbe, 3); }

pub open spec fn case_a(t: u8) -> bool { t <= 2 || 0x10 <= t <= 0x13 || t > 0x2f }
pub open spec fn case_b(t: u8) -> bool { 3 <= t <= 4 }
pub open spec fn case_c(t: u8) -> bool { 5 <= t <= 7 }
pub open spec fn case_d(t: u8) -> bool { 8 <= t <= 0xb }
pub open spec fn case_e(t: u8) -> bool { 0xc <= t <= 0xe || t == 0xf }
pub open spec fn case_f(t: u8) -> bool { 0x14 <= t <= 0x17 }
pub open spec fn case_g(t: u8) -> bool { 0x18 <= t <= 0x1b }
pub open spec fn case_h(t: u8) -> bool { 0x1c <= t <= 0x1f }
pub open spec fn case_i(t: u8) -> bool { 0x20 <= t <= 0x22 }
pub open spec fn case_j(t: u8) -> bool { 0x23 <= t <= 0x27 }
pub open spec fn case_k(t: u8) -> bool { 0x28 <= t <= 0x2a }
pub open spec fn case_l(t: u8) -> bool { 0x2b <= t <= 0x2d }
pub open spec fn case_m(t: u8) -> bool { 0x2e <= t <= 0x2f }
pub proof fn decode_cases(t: u8) ensures case_a(t) || case_b(t) || case_c(t) || case_d(t) || case_e(t) || case_f(t) || case_g(t) || case_h(t) || case_i(t) || case_j(t) || case_k(t) || case_l(t) || case_m(t) {}

impl Op {
//@ fn grovedb-query/src/proofs/encoding.rs Encode for Op::encode_into
//@ ret r
//@ sig <W: Write> ==>
//@ sig &mut W ==> &mut Sink
//@ sig ed::Result<()> ==> Result<(), EdError>
//@ spec
  requires wf(ov(*self)),
  ensures r is Ok ==> final(dest)@ == app(old(dest)@, ov(*self)),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Encode for Op::encoding_length
//@ as encoding_length_ed
//@ ret r
//@ sig ed::Result<usize> ==> Result<usize, EdError>
//@ spec
  requires wf(ov(*self)),
  ensures r is Ok, r.unwrap() == enc(ov(*self)).len(),
//@ at start
  proof { be_all(); len_ft(); }
//@ end
// decode is verified once per group of operation bytes (cases a to m, exhaustive: lemma decode_cases); decode_ed is their union
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_a
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_a(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_b
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_b(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_c
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_c(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_d
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_d(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_e
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_e(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_f
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_f(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_g
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_g(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_h
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_h(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_i
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_i(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_j
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_j(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_k
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_k(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_l
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_l(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_m
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  requires old(input)@.len() > 0 ==> case_m(old(input)@[0]),
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decode for Op::decode
//@ as decode_ed
//@ nobody cases decode_a to decode_m of this unit
//@ ret r
//@ sig <R: Read>(mut input: R) ==> (input: &mut Src)
//@ sig ed::Result<Self> ==> Result<Self, EdError>
//@ spec
  ensures r is Ok == dec(old(input)@) is Some, r is Ok ==> (ov(r.unwrap()), final(input)@) == dec(old(input)@).unwrap(),
//@ end
}
pub proof fn len_ft() ensures forall|s: Seq<u8>, f: TreeFeatureType| #[trigger] appft(s, f) == s + appft(Seq::empty(), f)
{ assert forall|s: Seq<u8>, f: TreeFeatureType| #[trigger] appft(s, f) == s + appft(Seq::empty(), f) by { ft_lemma(s, f, s); } }

//@ rules
Decode::decode(bytes).map_err($x..) ==> match Op::decode_ed(&mut Src::of(bytes)) { Ok(o) => Ok(o), Err(_) => Err(err()) }
Encode::encode_into(self, dest).map_err($x..) ==> match self.encode_into(dest) { Ok(o) => Ok(o), Err(_) => Err(err()) }
Encode::encoding_length(self) ==> self.encoding_length_ed()
Some((|| { let bytes = $x..; let op = Op::decode(bytes)?; $b.. Ok(op) })()) ==> { let bytes = $x; let op = match Op::decode(bytes) { Ok(o) => o, Err(e) => { return Some(Err(e)); } }; $b Some(Ok(op)) }
&self.bytes[self.offset..] ==> slice_from(self.bytes, self.offset)
//@ end
#[verifier::external_body] pub fn slice_from(d: &[u8], o: usize) -> (s: &[u8]) requires o <= d@.len() ensures s@ == d@.skip(o as int) { &d[o..] }
impl Op {
//@ fn grovedb-query/src/proofs/encoding.rs Op::encode_into_with_error
//@ ret r
//@ sig <W: std::io::Write> ==>
//@ sig &mut W ==> &mut Sink
//@ spec
  requires wf(ov(*self)),
  ensures r is Ok ==> final(dest)@ == app(old(dest)@, ov(*self)),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Op::encoding_length
//@ ret r
//@ spec
  requires wf(ov(*self)),
  ensures r == enc(ov(*self)).len(),
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Op::decode
//@ ret r
//@ spec
  ensures r is Ok == dec(bytes@) is Some, r is Ok ==> ov(r.unwrap()) == dec(bytes@).unwrap().0 && wf(ov(r.unwrap())),
//@ at start
  proof { if dec(bytes@) is Some { dec_wf(bytes@); } }
//@ end
}
//@ type grovedb-query/src/proofs/encoding.rs Decoder
impl<'a> Decoder<'a> {
//@ fn grovedb-query/src/proofs/encoding.rs Decoder::new
//@ ret r
//@ sig const fn ==> fn
//@ spec
  ensures r.offset == 0, r.bytes == proof_bytes,
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Decoder::remaining_bytes
//@ ret r
//@ sig const fn ==> fn
//@ spec
  ensures r == if self.offset <= self.bytes@.len() { self.bytes@.len() - self.offset } else { 0 },
//@ end
//@ fn grovedb-query/src/proofs/encoding.rs Iterator for Decoder::next
//@ ret r
//@ sig Option<Self::Item> ==> Option<Result<Op, Error>>
//@ spec
  requires old(self).offset <= usize::MAX - 0x1000_0000,
  ensures
    final(self).bytes == old(self).bytes,
    r is None == (old(self).offset >= old(self).bytes@.len()),
    // an error is final: the decoder does not move
    !(r is Some && r.unwrap() is Ok) ==> final(self).offset == old(self).offset,
    r is Some ==> r.unwrap() is Ok == dec(old(self).bytes@.skip(old(self).offset as int)) is Some,
    r is Some && r.unwrap() is Ok ==> {
        let o = ov(r.unwrap()->Ok_0);
        o == dec(old(self).bytes@.skip(old(self).offset as int)).unwrap().0 && final(self).offset == old(self).offset + enc(o).len() && wf(o)
    },
//@ after #all let op = $x..;
  proof { enc_len(ov(op)); }
//@ end
}
pub proof fn enc_len(o: OpV) requires wf(o) ensures 0 < enc(o).len() <= 0x800_0000
{
    let e = Seq::<u8>::empty(); be_all(); len_ft();
    match o { OpV::Push(n) => { ft_lemma(e, n.ft, e); app_tail(e, false, n, e); assert(appn(e, false, n) + e =~= appn(e, false, n)); }, OpV::PushInverted(n) => { ft_lemma(e, n.ft, e); app_tail(e, true, n, e); assert(appn(e, true, n) + e =~= appn(e, true, n)); }, _ => {} }
}
// a sequence of operations
pub open spec fn encs(s: Seq<OpV>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc(s[0]) + encs(s.drop_first()) } }
pub open spec fn decs(s: Seq<u8>) -> Option<Seq<OpV>> decreases s.len() via decs_dec {
    if s.len() == 0 { Some(Seq::empty()) } else { match dec(s) { None => None, Some((o, _)) => if wf(o) && 0 < enc(o).len() <= s.len() { match decs(s.skip(enc(o).len() as int)) { None => None, Some(t) => Some(seq![o] + t) } } else { None } } }
}
#[via_fn] proof fn decs_dec(s: Seq<u8>) { }
pub proof fn sequence_round_trip(s: Seq<OpV>) requires forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) ensures decs(encs(s)) == Some(s) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); assert forall|i: int| 0 <= i < t.len() implies wf(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        sequence_round_trip(t); round_trip(s[0], encs(t)); cut(enc(s[0]), encs(t)); assert(s =~= seq![s[0]] + t);
    } else { assert(s =~= Seq::empty()); }
}
} // verus!
fn main() {}
