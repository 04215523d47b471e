// the byte encoding of epoch based storage flags
//@ rules
u16::from_be_bytes(data[$x..].try_into().map_err(|_| { $y.. })?) ==> be_u16(slice(data, $x))
let owner_id: OwnerId = data[$x..].try_into().map_err(|_| { $y.. })?; ==> let owner_id: OwnerId = to_id(slice(data, $x));
u32::decode_var(&data[offset..]) ==> decode_var(slice_from(data, offset))
$m.iter().for_each(|($a, $b)| { $c.. }) ==> let mut list = $m.entries_rev(); while list.len() > 0 { let p = list.pop().unwrap(); let ($a, $b) = (&p.0, &p.1); $c }
debug_assert!($x..); ==>
buffer.extend($x.to_be_bytes()) ==> push_be16(buffer, $x)
buffer.extend($x.encode_var_vec()) ==> push_var(buffer, $x)
$x.encode_var_vec().len() ==> var_len($x)
buffer.extend(owner_id) ==> push_id(buffer, owner_id)
vec![self.type_byte()] ==> vec1(self.type_byte())
//@ end

// ---- trusted: integer and varint byte encodings -----------------------------
// a Rust slice never occupies more than isize::MAX bytes
pub axiom fn axiom_slice_len(d: &[u8]) ensures d@.len() <= 0x7fff_ffff_ffff_ffff;
pub uninterp spec fn be16(x: u16) -> Seq<u8>;
pub uninterp spec fn un16(s: Seq<u8>) -> u16;
pub uninterp spec fn var(x: u32) -> Seq<u8>;
pub uninterp spec fn unvar(s: Seq<u8>) -> Option<(u32, int)>;
pub axiom fn axiom_be16(x: u16) ensures be16(x).len() == 2, un16(be16(x)) == x;
pub axiom fn axiom_var(x: u32, rest: Seq<u8>) ensures 1 <= var(x).len() <= 5, unvar(var(x) + rest) == Some((x, var(x).len() as int));
pub axiom fn axiom_unvar(s: Seq<u8>) ensures unvar(s).is_some() ==> 0 < unvar(s).unwrap().1 <= s.len();
pub uninterp spec fn id_seq(o: OwnerId) -> Seq<u8>;
pub uninterp spec fn un_id(s: Seq<u8>) -> OwnerId;
pub axiom fn axiom_id(o: OwnerId) ensures id_seq(o).len() == 32, un_id(id_seq(o)) == o;
#[verifier::external_body] pub fn slice(d: &[u8], r: core::ops::Range<usize>) -> (s: &[u8]) requires r.start <= r.end <= d@.len() ensures s@ == d@.subrange(r.start as int, r.end as int) { &d[r] }
#[verifier::external_body] pub fn slice_from(d: &[u8], o: usize) -> (s: &[u8]) requires o <= d@.len() ensures s@ == d@.skip(o as int) { &d[o..] }
#[verifier::external_body] pub fn be_u16(d: &[u8]) -> (r: u16) requires d@.len() == 2 ensures r == un16(d@) { unimplemented!() }
#[verifier::external_body] pub fn to_id(d: &[u8]) -> (r: OwnerId) requires d@.len() == 32 ensures r == un_id(d@) { unimplemented!() }
#[verifier::external_body] pub fn decode_var(d: &[u8]) -> (r: Option<(u32, usize)>)
    ensures r.is_some() == unvar(d@).is_some(), r.is_some() ==> r.unwrap().0 == unvar(d@).unwrap().0 && r.unwrap().1 == unvar(d@).unwrap().1 && 0 < r.unwrap().1 <= d@.len() { unimplemented!() }
#[verifier::external_body] pub fn push_be16(b: &mut Vec<u8>, x: &u16) ensures final(b)@ == old(b)@ + be16(*x) { unimplemented!() }
#[verifier::external_body] pub fn push_var(b: &mut Vec<u8>, x: &u32) ensures final(b)@ == old(b)@ + var(*x) { unimplemented!() }
#[verifier::external_body] pub fn var_len(x: &u32) -> (r: usize) ensures r == var(*x).len() { unimplemented!() }
#[verifier::external_body] pub fn push_id(b: &mut Vec<u8>, x: &OwnerId) ensures final(b)@ == old(b)@ + id_seq(*x) { unimplemented!() }
#[verifier::external_body] pub fn vec1(x: u8) -> (r: Vec<u8>) ensures r@ == seq![x] { vec![x] }
impl EMap {
    // the entries in descending key order, so that popping yields them in iteration (ascending) order
    #[verifier::external_body] pub fn entries_rev(&self) -> (r: Vec<(u16, u32)>) ensures r@ == entries(self@).reverse() { unimplemented!() }
}

// ---- specification: the layout and its inverse -------------------------------
pub open spec fn enc_list(s: Seq<(u16, u32)>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { be16(s[0].0) + var(s[0].1) + enc_list(s.skip(1)) }
}
pub open spec fn tag(f: StorageFlags) -> u8 { match f { SingleEpoch(_) => 0, MultiEpoch(..) => 1, SingleEpochOwned(..) => 2, MultiEpochOwned(..) => 3 } }
pub open spec fn enc_own(f: StorageFlags) -> Seq<u8> { match f { SingleEpochOwned(_, o) => id_seq(o), MultiEpochOwned(_, _, o) => id_seq(o), _ => Seq::empty() } }
pub open spec fn enc_epochs(f: StorageFlags) -> Seq<u8> { match f { MultiEpoch(_, m) => enc_list(entries(m@)), MultiEpochOwned(_, m, _) => enc_list(entries(m@)), _ => Seq::empty() } }
pub open spec fn enc(f: StorageFlags) -> Seq<u8> { seq![tag(f)] + enc_own(f) + be16(fbase(f)) + enc_epochs(f) }
// a multi epoch flag always has at least one epoch (asserted by the encoder)
pub open spec fn valid(f: StorageFlags) -> bool { match f { MultiEpoch(_, m) => m@ != Map::<u16, u32>::empty(), MultiEpochOwned(_, m, _) => m@ != Map::<u16, u32>::empty(), _ => true } }

pub enum Flags { S(u16), M(u16, Map<u16, u32>), SO(u16, OwnerId), MO(u16, Map<u16, u32>, OwnerId) }
pub open spec fn view(f: StorageFlags) -> Flags { match f { SingleEpoch(b) => Flags::S(b), MultiEpoch(b, m) => Flags::M(b, m@), SingleEpochOwned(b, o) => Flags::SO(b, o), MultiEpochOwned(b, m, o) => Flags::MO(b, m@, o) } }
pub open spec fn parse_map(d: Seq<u8>, off: int, acc: Map<u16, u32>) -> Option<Map<u16, u32>> decreases d.len() - off {
    if 0 <= off && off + 2 < d.len() {
        match unvar(d.skip(off + 2)) {
            None => None,
            Some((v, n)) => if 0 < n <= d.len() - off - 2 { parse_map(d, off + 2 + n, acc.insert(un16(d.subrange(off, off + 2)), v)) } else { None },
        }
    } else { Some(acc) }
}
pub open spec fn parse(d: Seq<u8>) -> Option<Flags> {
    if d.len() == 0 { None }
    else if d[0] == 0 { if d.len() != 3 { None } else { Some(Flags::S(un16(d.subrange(1, 3)))) } }
    else if d[0] == 2 { if d.len() != 35 { None } else { Some(Flags::SO(un16(d.subrange(33, 35)), un_id(d.subrange(1, 33)))) } }
    else if d[0] == 1 { if d.len() < 6 { None } else { match parse_map(d, 3, Map::empty()) { None => None, Some(m) => Some(Flags::M(un16(d.subrange(1, 3)), m)) } } }
    else if d[0] == 3 { if d.len() < 38 { None } else { match parse_map(d, 35, Map::empty()) { None => None, Some(m) => Some(Flags::MO(un16(d.subrange(33, 35)), m, un_id(d.subrange(1, 33)))) } } }
    else { None }
}
pub open spec fn parsed(d: Seq<u8>, r: Result<StorageFlags, StorageFlagsError>) -> bool {
    match parse(d) { None => r.is_err(), Some(x) => r.is_ok() && view(r->Ok_0) == x }
}
pub open spec fn ins(acc: Map<u16, u32>, s: Seq<(u16, u32)>) -> Map<u16, u32> decreases s.len() {
    if s.len() == 0 { acc } else { ins(acc.insert(s[0].0, s[0].1), s.skip(1)) }
}

// ---- lemmas ------------------------------------------------------------------
proof fn lemma_ins(acc: Map<u16, u32>, s: Seq<(u16, u32)>)
    requires forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a].0 < s[b].0
    ensures forall|e: u16| #[trigger] ins(acc, s).dom().contains(e) <==> acc.dom().contains(e) || has_e(s, e),
        forall|k: int| 0 <= k < s.len() ==> ins(acc, s)[#[trigger] s[k].0] == s[k].1,
        forall|e: u16| #[trigger] acc.dom().contains(e) && !has_e(s, e) ==> ins(acc, s)[e] == acc[e],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1); let a2 = acc.insert(s[0].0, s[0].1);
        assert forall|a: int, b: int| 0 <= a < b < t.len() implies t[a].0 < t[b].0 by { assert(t[a] == s[a + 1] && t[b] == s[b + 1]); }
        lemma_ins(a2, t);
        assert forall|e: u16| #![trigger has_e(s, e)] #![trigger has_e(t, e)] has_e(s, e) <==> e == s[0].0 || has_e(t, e) by {
            if has_e(s, e) { let k = choose|k: int| 0 <= k < s.len() && s[k].0 == e; if k > 0 { assert(t[k - 1] == s[k]); } }
            if has_e(t, e) { let k = choose|k: int| 0 <= k < t.len() && t[k].0 == e; assert(t[k] == s[k + 1]); }
        }
        assert(!has_e(t, s[0].0)) by { if has_e(t, s[0].0) { let k = choose|k: int| 0 <= k < t.len() && t[k].0 == s[0].0; assert(t[k] == s[k + 1]); } }
        assert forall|k: int| 0 <= k < s.len() implies ins(acc, s)[#[trigger] s[k].0] == s[k].1 by {
            if k > 0 { assert(t[k - 1] == s[k]); } else { assert(a2.dom().contains(s[0].0)); }
        }
        assert forall|e: u16| #[trigger] acc.dom().contains(e) && !has_e(s, e) implies ins(acc, s)[e] == acc[e] by { assert(a2.dom().contains(e)); }
        assert forall|e: u16| #[trigger] ins(acc, s).dom().contains(e) <==> acc.dom().contains(e) || has_e(s, e) by {}
    }
}
proof fn lemma_parse_list(pre: Seq<u8>, s: Seq<(u16, u32)>, acc: Map<u16, u32>)
    ensures parse_map(pre + enc_list(s), pre.len() as int, acc) == Some(ins(acc, s))
    decreases s.len()
{
    let d = pre + enc_list(s); let off = pre.len() as int;
    if s.len() > 0 {
        let tail = enc_list(s.skip(1));
        axiom_be16(s[0].0); axiom_var(s[0].1, tail);
        assert(d.subrange(off, off + 2) =~= be16(s[0].0));
        assert(d.skip(off + 2) =~= var(s[0].1) + tail);
        let pre2 = pre + be16(s[0].0) + var(s[0].1);
        assert(pre2 + tail =~= d);
        lemma_parse_list(pre2, s.skip(1), acc.insert(s[0].0, s[0].1));
    }
}
// C12: decoding inverts encoding
proof fn roundtrip(f: StorageFlags)
    requires valid(f)
    ensures parse(enc(f)) == Some(view(f))
{
    let d = enc(f); let own = enc_own(f); let b = fbase(f); let pre = seq![tag(f)] + own + be16(b);
    axiom_be16(b);
    match f {
        SingleEpoch(_) => { assert(d.subrange(1, 3) =~= be16(b)); }
        SingleEpochOwned(_, o) => { axiom_id(o); assert(d.subrange(1, 33) =~= id_seq(o)); assert(d.subrange(33, 35) =~= be16(b)); }
        MultiEpoch(_, m) => {
            let s = entries(m@); lemma_map(m@); lemma_parse_list(pre, s, Map::empty());
            assert(d.subrange(1, 3) =~= be16(b)); axiom_be16(s[0].0); axiom_var(s[0].1, enc_list(s.skip(1)));
        }
        MultiEpochOwned(_, m, o) => {
            axiom_id(o); let s = entries(m@); lemma_map(m@); lemma_parse_list(pre, s, Map::empty());
            assert(d.subrange(1, 33) =~= id_seq(o)); assert(d.subrange(33, 35) =~= be16(b)); axiom_be16(s[0].0); axiom_var(s[0].1, enc_list(s.skip(1)));
        }
    }
}
proof fn lemma_map(m: Map<u16, u32>)
    ensures ins(Map::empty(), entries(m)) == m, m != Map::<u16, u32>::empty() ==> entries(m).len() > 0
{
    let s = entries(m); axiom_entries(m); lemma_ins(Map::empty(), s); let r = ins(Map::empty(), s);
    assert forall|e: u16| #[trigger] r.dom().contains(e) <==> m.dom().contains(e) by { if has_e(s, e) { let k = choose|k: int| 0 <= k < s.len() && s[k].0 == e; assert(m.dom().contains(s[k].0)); } }
    assert forall|e: u16| #[trigger] r.dom().contains(e) implies r[e] == m[e] by { let k = choose|k: int| 0 <= k < s.len() && s[k].0 == e; assert(r[s[k].0] == s[k].1); }
    assert(r =~= m);
    if s.len() == 0 { assert(m =~= Map::<u16, u32>::empty()); }
}

// ---- the code under contract ---------------------------------------------------
impl StorageFlags {
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::type_byte
//@ ret r
//@ spec
    ensures r == tag(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::append_to_vec_base_epoch
//@ spec
    ensures final(buffer)@ == old(buffer)@ + be16(fbase(*self))
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::maybe_append_to_vec_owner_id
//@ spec
    ensures final(buffer)@ =~= old(buffer)@ + enc_own(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::maybe_owner_id_size
//@ ret r
//@ spec
    ensures r == enc_own(*self).len()
//@ at start
proof { match self { SingleEpochOwned(_, o) => axiom_id(*o), MultiEpochOwned(_, _, o) => axiom_id(*o), _ => {} } }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::maybe_append_to_vec_epoch_map
//@ spec
    ensures final(buffer)@ =~= old(buffer)@ + enc_epochs(*self)
//@ preloop 1
let ghost s = entries(epoch_map@); let ghost b0 = buffer@; let ghost n = s.len() as int;
proof { assert(s.skip(0) =~= s); }
//@ loop 1
invariant list@.len() <= n, n == s.len(), list@ =~= s.skip(n - list@.len()).reverse(),
    buffer@ + enc_list(s.skip(n - list@.len())) == b0 + enc_list(s),
decreases list@.len()
//@ loopstart 1
let ghost l0 = list@; let ghost b1 = buffer@; let ghost rest = s.skip(n - l0.len());
proof { assert(l0.last() == rest[0]); assert(rest.skip(1) =~= s.skip(n - l0.len() + 1)); assert(l0.drop_last() =~= rest.skip(1).reverse()); }
//@ loopend 1
proof { assert(buffer@ + enc_list(rest.skip(1)) =~= b1 + enc_list(rest)); }
//@ postloop 1
proof { assert(s.skip(n).len() == 0); }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::maybe_epoch_map_size
//@ ret r
//@ spec
    ensures r == enc_epochs(*self).len()
//@ at start
proof { match self { MultiEpoch(_, m) => lemma_len(m@), MultiEpochOwned(_, m, _) => lemma_len(m@), _ => {} } }
//@ preloop 1
let ghost s = entries(epoch_map@); let ghost n = s.len() as int;
proof { assert(s.skip(0) =~= s); }
//@ loop 1
invariant list@.len() <= n, n == s.len(), list@ =~= s.skip(n - list@.len()).reverse(),
    size + enc_list(s.skip(n - list@.len())).len() == enc_list(s).len(), enc_list(s).len() <= 7 * 65536,
decreases list@.len()
//@ loopstart 1
let ghost l0 = list@; let ghost rest = s.skip(n - l0.len());
proof { assert(l0.last() == rest[0]); assert(rest.skip(1) =~= s.skip(n - l0.len() + 1)); assert(l0.drop_last() =~= rest.skip(1).reverse()); axiom_be16(rest[0].0); axiom_var(rest[0].1, Seq::empty()); }
//@ postloop 1
proof { assert(s.skip(n).len() == 0); }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::serialize
//@ ret r
//@ spec
    requires valid(*self)
    ensures r@ =~= enc(*self)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::serialized_size
//@ ret r
//@ spec
    ensures r == enc(*self).len()
//@ at start
proof { axiom_be16(fbase(*self)); match self { MultiEpoch(_, m) => lemma_len(m@), MultiEpochOwned(_, m, o) => { axiom_id(*o); lemma_len(m@) }, SingleEpochOwned(_, o) => axiom_id(*o), _ => {} } }
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::deserialize_single_epoch
//@ ret r
//@ spec
    requires data@.len() > 0 && data@[0] == 0
    ensures parsed(data@, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::deserialize_single_epoch_owned
//@ ret r
//@ spec
    requires data@.len() > 0 && data@[0] == 2
    ensures parsed(data@, r)
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::deserialize_multi_epoch
//@ ret r
//@ spec
    requires data@.len() > 0 && data@[0] == 1
    ensures parsed(data@, r)
//@ at start
proof { axiom_slice_len(data); }
//@ loop 1
invariant len <= 0x7fff_ffff_ffff_ffff, len == data@.len(), 3 <= offset <= len, parse_map(data@, offset as int, bytes_per_epoch@) == parse_map(data@, 3, Map::empty()), len >= 6, base_epoch == un16(data@.subrange(1, 3)), data@[0] == 1
decreases len - offset
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::deserialize_multi_epoch_owned
//@ ret r
//@ spec
    requires data@.len() > 0 && data@[0] == 3
    ensures parsed(data@, r)
//@ at start
proof { axiom_slice_len(data); }
//@ loop 1
invariant len <= 0x7fff_ffff_ffff_ffff, len == data@.len(), 35 <= offset <= len, parse_map(data@, offset as int, bytes_per_epoch@) == parse_map(data@, 35, Map::empty()), len >= 38, base_epoch == un16(data@.subrange(33, 35)), owner_id == un_id(data@.subrange(1, 33)), data@[0] == 3
decreases len - offset
//@ end
//@ fn grovedb-epoch-based-storage-flags/src/lib.rs StorageFlags::deserialize
//@ ret r
//@ spec
    ensures data@.len() == 0 ==> r.is_ok() && r->Ok_0.is_none(),
        data@.len() > 0 ==> (match parse(data@) { None => r.is_err(), Some(x) => r.is_ok() && r->Ok_0.is_some() && view(r->Ok_0->0) == x }),
//@ end
}
proof fn lemma_len(m: Map<u16, u32>) ensures enc_list(entries(m)).len() <= 7 * 65536
{ let s = entries(m); axiom_entries(m); lemma_len2(s); lemma_count(s, s.len() as int); }
proof fn lemma_len2(s: Seq<(u16, u32)>) ensures enc_list(s).len() <= 7 * s.len() decreases s.len()
{ if s.len() > 0 { axiom_be16(s[0].0); axiom_var(s[0].1, Seq::empty()); lemma_len2(s.skip(1)); } }
// strictly increasing 16-bit keys: at most 65536 of them
proof fn lemma_count(s: Seq<(u16, u32)>, k: int)
    requires 0 <= k <= s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a].0 < s[b].0
    ensures k > 0 ==> s[k - 1].0 >= k - 1, k <= 65536
    decreases k
{ if k > 0 { lemma_count(s, k - 1); if k > 1 { assert(s[k - 2].0 < s[k - 1].0); } } }
