//@ rules
BulkAppendError::$v($x..) ==> err()
u32::from_be_bytes(data[$x..].try_into().map_err(|_| $y..)?) ==> be_u32(slice(data, $x))
u32::from_be_bytes(data[$x..].try_into().map_err(|_| $y..)?,) ==> be_u32(slice(data, $x))
entries[0].len().try_into().map_err(|_| { $y.. })? ==> to_u32(entries[0].len())?
$x.len().try_into().map_err(|_| { $y.. })? ==> to_u32($x.len())?
.ok_or_else(|| { $y.. })? ==> .ok_or_else_err()?
count.checked_mul(entry_size).ok_or_else_err()? ==> opt(count.checked_mul(entry_size))?
entries.iter().all(|e| e.len() == entries[0].len()) ==> all_same_len(entries)
entries.iter().map(|e| 4 + e.len()).sum::<usize>() ==> payload_len(entries)
blob.extend_from_slice(&$x.to_be_bytes()) ==> push_be32(&mut blob, $x)
blob.extend_from_slice(entry) ==> push_all(&mut blob, entry)
for entry in entries { $x.. } ==> let mut k = 0; while k < entries.len() { let entry = &entries[k]; k += 1; $x }
for i in 0..count { $x.. } ==> let mut i: usize = 0; while i < count { $x i += 1; }
&blob[1..] ==> slice_from(blob, 1)
&data[8..] ==> slice_from(data, 8)
payload[$x..].to_vec() ==> copy(slice(payload, $x))
data[$x..].to_vec() ==> copy(slice(data, $x))
//@ end
#[verifier::external_body] #[derive(Debug)] pub struct BulkAppendError { x: usize }
#[verifier::external_body] pub fn err() -> (r: BulkAppendError) { unimplemented!() }

// ---- trusted: byte order, slicing and copying bytes ----
pub open spec fn be(x: int) -> Seq<u8> { seq![(x / 16777216 % 256) as u8, (x / 65536 % 256) as u8, (x / 256 % 256) as u8, (x % 256) as u8] }
pub open spec fn un(s: Seq<u8>) -> int { s[0] * 16777216 + s[1] * 65536 + s[2] * 256 + s[3] }
// a Rust slice never occupies more than isize::MAX bytes
pub axiom fn axiom_slice_len(d: &[u8]) ensures d@.len() <= 0x7fff_ffff_ffff_ffff;
#[verifier::external_body] pub fn slice(d: &[u8], r: core::ops::Range<usize>) -> (s: &[u8]) requires r.start <= r.end <= d@.len() ensures s@ == d@.subrange(r.start as int, r.end as int) { &d[r] }
#[verifier::external_body] pub fn slice_from(d: &[u8], o: usize) -> (s: &[u8]) requires o <= d@.len() ensures s@ == d@.skip(o as int) { &d[o..] }
#[verifier::external_body] pub fn copy(d: &[u8]) -> (r: Vec<u8>) ensures r@ == d@ { d.to_vec() }
#[verifier::external_body] pub fn be_u32(d: &[u8]) -> (r: u32) requires d@.len() == 4 ensures r == un(d@) { unimplemented!() }
#[verifier::external_body] pub fn push_be32(b: &mut Vec<u8>, x: u32) ensures final(b)@ == old(b)@ + be(x as int) { unimplemented!() }
#[verifier::external_body] pub fn push_all(b: &mut Vec<u8>, x: &Vec<u8>) ensures final(b)@ == old(b)@ + x@ { unimplemented!() }
#[verifier::external_body] pub fn to_u32(n: usize) -> (r: Result<u32, BulkAppendError>) ensures r.is_ok() == (n <= u32::MAX), r.is_ok() ==> r.unwrap() == n { unimplemented!() }
#[verifier::external_body] pub fn opt(n: Option<usize>) -> (r: Result<usize, BulkAppendError>) ensures r.is_ok() == n.is_some(), r.is_ok() ==> r.unwrap() == n.unwrap() { unimplemented!() }
#[verifier::external_body] pub fn all_same_len(e: &[Vec<u8>]) -> (r: bool) requires e@.len() > 0 ensures r == same_len(vs(e@)) { unimplemented!() }
// a capacity hint only
#[verifier::external_body] pub fn payload_len(e: &[Vec<u8>]) -> (r: usize) ensures r < usize::MAX { unimplemented!() }

// ---- the documented layout ----
pub type L = Seq<Seq<u8>>;
pub open spec fn vs(e: Seq<Vec<u8>>) -> L { e.map_values(|v: Vec<u8>| v@) }
pub open spec fn same_len(es: L) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).len() == es[0].len() }
pub open spec fn cat(es: L) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else { cat(es.drop_last()) + es.last() } }
pub open spec fn venc(es: L) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else { venc(es.drop_last()) + be(es.last().len() as int) + es.last() } }
pub open spec fn enc(es: L) -> Seq<u8> {
    if es.len() == 0 { Seq::empty() }
    else if same_len(es) { seq![1u8] + be(es.len() as int) + be(es[0].len() as int) + cat(es) }
    else { seq![0u8] + venc(es) }
}
pub open spec fn fits(es: L) -> bool { es.len() <= 1048576 && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).len() <= u32::MAX }
pub open spec fn pieces(p: Seq<u8>, n: int, s: int) -> L { Seq::new(n as nat, |i: int| p.subrange(i * s, i * s + s)) }
pub open spec fn fdec(d: Seq<u8>) -> Option<L> {
    if d.len() < 8 { None } else {
        let (n, s) = (un(d.subrange(0, 4)), un(d.subrange(4, 8)));
        if n > 1048576 || n * s != d.len() - 8 { None } else { Some(pieces(d.skip(8), n, s)) }
    }
}
// parse at most `room` further entries
pub open spec fn vdec(d: Seq<u8>, room: int) -> Option<L> decreases d.len() {
    if d.len() == 0 { Some(Seq::empty()) } else if room <= 0 || d.len() < 4 { None } else {
        let l = un(d.subrange(0, 4));
        if 4 + l > d.len() { None } else { match vdec(d.skip(4 + l), room - 1) { None => None, Some(r) => Some(seq![d.subrange(4, 4 + l)] + r) } }
    }
}
pub open spec fn dec(b: Seq<u8>) -> Option<L> {
    if b.len() == 0 { Some(Seq::empty()) } else if b[0] == 1 { fdec(b.skip(1)) } else if b[0] == 0 { vdec(b.skip(1), 1048576) } else { None }
}
pub open spec fn prepend(a: L, b: Option<L>) -> Option<L> { match b { None => None, Some(r) => Some(a + r) } }

// ---- lemmas: decoding inverts encoding; what decodes accounts for every byte ----
pub proof fn lemma_be(x: int) requires 0 <= x <= u32::MAX ensures be(x).len() == 4, un(be(x)) == x {
    assert(x / 16777216 % 256 == x / 16777216);
    assert(x / 65536 == 256 * (x / 16777216) + x / 65536 % 256) by (nonlinear_arith);
    assert(x / 256 == 256 * (x / 65536) + x / 256 % 256) by (nonlinear_arith);
}
pub proof fn lemma_cat_len(es: L) requires same_len(es) ensures es.len() > 0 ==> cat(es).len() == es.len() * es[0].len(), es.len() == 0 ==> cat(es).len() == 0 decreases es.len() {
    if es.len() > 1 {
        let d = es.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() == d[0].len() by { assert(d[i] == es[i]); assert(es[0] == d[0]); }
        lemma_cat_len(d);
        assert(es.last() == es[es.len() - 1]);
        assert((es.len() - 1) * es[0].len() + es[0].len() == es.len() * es[0].len()) by (nonlinear_arith) requires es.len() > 0;
    } else if es.len() == 1 { assert(cat(es.drop_last()).len() == 0); assert(1 * es[0].len() == es[0].len()); }
}
pub proof fn lemma_pieces(es: L) requires same_len(es), es.len() > 0 ensures pieces(cat(es), es.len() as int, es[0].len() as int) =~= es decreases es.len() {
    let (n, s) = (es.len() as int, es[0].len() as int);
    lemma_cat_len(es);
    let d = es.drop_last();
    if n > 1 {
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).len() == d[0].len() by { assert(d[i] == es[i]); assert(es[0] == d[0]); }
        lemma_pieces(d); lemma_cat_len(d);
    }
    let c = cat(es);
    assert forall|i: int| 0 <= i < n implies (#[trigger] pieces(c, n, s)[i]) =~= es[i] by {
        assert(es[i].len() == s);
        assert(i * s + s <= n * s) by (nonlinear_arith) requires 0 <= i < n, s >= 0;
        assert(0 <= i * s) by (nonlinear_arith) requires 0 <= i, s >= 0;
        if i < n - 1 {
            assert(i * s + s <= (n - 1) * s) by (nonlinear_arith) requires 0 <= i < n - 1, s >= 0;
            assert(pieces(cat(d), n - 1, s)[i] == d[i]);
            assert(c.subrange(i * s, i * s + s) =~= cat(d).subrange(i * s, i * s + s));
        } else {
            assert(cat(d).len() == (n - 1) * s) by { if n == 1 { assert(0 * s == 0); } }
            assert(c.subrange(i * s, i * s + s) =~= es.last());
        }
    }
}
pub proof fn lemma_venc_front(es: L) requires es.len() > 0 ensures venc(es) =~= be(es[0].len() as int) + es[0] + venc(es.skip(1)) decreases es.len() {
    if es.len() == 1 { assert(venc(es.drop_last()) =~= Seq::<u8>::empty()); assert(venc(es.skip(1)) =~= Seq::<u8>::empty()); }
    else {
        lemma_venc_front(es.drop_last());
        assert(es.drop_last().skip(1) =~= es.skip(1).drop_last());
        assert(es.skip(1).last() == es.last());
    }
}
pub proof fn lemma_vdec(es: L, room: int) requires es.len() <= room, forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).len() <= u32::MAX ensures vdec(venc(es), room) == Some(es) decreases es.len() {
    if es.len() == 0 { assert(vdec(venc(es), room).unwrap() =~= es); }
    else {
        lemma_venc_front(es);
        let (d, l, t) = (venc(es), es[0].len() as int, es.skip(1));
        lemma_be(l);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() <= u32::MAX by { assert(t[i] == es[i + 1]); }
        lemma_vdec(t, room - 1);
        assert(d.subrange(0, 4) =~= be(l));
        assert(d.skip(4 + l) =~= venc(t));
        assert(d.subrange(4, 4 + l) =~= es[0]);
        assert(seq![es[0]] + t =~= es);
    }
}
pub proof fn theorem_roundtrip(es: L) requires fits(es) ensures dec(enc(es)) == Some(es) {
    let b = enc(es);
    if es.len() == 0 { assert(dec(b).unwrap() =~= es); }
    else if same_len(es) {
        let (n, s) = (es.len() as int, es[0].len() as int);
        lemma_be(n); lemma_be(s); lemma_cat_len(es); lemma_pieces(es);
        let d = b.skip(1);
        assert(d.subrange(0, 4) =~= be(n));
        assert(d.subrange(4, 8) =~= be(s));
        assert(d.skip(8) =~= cat(es));
    } else {
        assert(b.skip(1) =~= venc(es));
        lemma_vdec(es, 1048576);
    }
}
pub open spec fn sizes(es: L) -> int decreases es.len() { if es.len() == 0 { 0 } else { sizes(es.drop_last()) + 4 + es.last().len() } }
pub proof fn lemma_sizes_cons(x: Seq<u8>, r: L) ensures sizes(seq![x] + r) == 4 + x.len() + sizes(r) decreases r.len() {
    let a = seq![x] + r;
    if r.len() == 0 { assert(a.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(sizes(a.drop_last()) == 0); assert(a.last() == x); }
    else { lemma_sizes_cons(x, r.drop_last()); assert(a.drop_last() =~= seq![x] + r.drop_last()); assert(a.last() == r.last()); }
}
pub proof fn theorem_accounts_variable(d: Seq<u8>, room: int) requires room >= 0 ensures vdec(d, room).is_some() ==> sizes(vdec(d, room).unwrap()) == d.len() && vdec(d, room).unwrap().len() <= room decreases d.len() {
    if d.len() > 0 && room > 0 && d.len() >= 4 {
        let l = un(d.subrange(0, 4));
        if 4 + l <= d.len() { theorem_accounts_variable(d.skip(4 + l), room - 1);
            if vdec(d.skip(4 + l), room - 1).is_some() { lemma_sizes_cons(d.subrange(4, 4 + l), vdec(d.skip(4 + l), room - 1).unwrap()); } }
    }
}
pub proof fn theorem_accounts_fixed(d: Seq<u8>) ensures fdec(d).is_some() ==> fdec(d).unwrap().len() <= 1048576 && 8 + cat(fdec(d).unwrap()).len() == d.len() {
    if fdec(d).is_some() {
        let (n, s) = (un(d.subrange(0, 4)), un(d.subrange(4, 8)));
        let es = pieces(d.skip(8), n, s);
        assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).len() == s by {
            assert(0 <= i * s && i * s + s <= n * s) by (nonlinear_arith) requires 0 <= i < n, s >= 0;
        }
        lemma_cat_len(es);
        if n == 0 { assert(n * s == 0) by (nonlinear_arith) requires n == 0; }
    }
}

// ---- the code under contract ----
//@ const grovedb-bulk-append-tree/src/chunk.rs FORMAT_VARIABLE
//@ const grovedb-bulk-append-tree/src/chunk.rs FORMAT_FIXED
//@ const grovedb-bulk-append-tree/src/chunk.rs MAX_CHUNK_ENTRIES
//@ fn grovedb-bulk-append-tree/src/chunk.rs serialize_chunk_blob
//@ ret r
//@ spec
    requires entries@.len() > 0 ==> 9 + entries@.len() * entries@[0]@.len() <= usize::MAX
    ensures fits(vs(entries@)) ==> r.is_ok(), r.is_ok() ==> r.unwrap()@ =~= enc(vs(entries@))
//@ end
//@ fn grovedb-bulk-append-tree/src/chunk.rs serialize_fixed
//@ ret r
//@ spec
    requires entries@.len() > 0, same_len(vs(entries@)), 9 + entries@.len() * entries@[0]@.len() <= usize::MAX
    ensures fits(vs(entries@)) ==> r.is_ok(), r.is_ok() ==> r.unwrap()@ =~= enc(vs(entries@))
//@ at start
let ghost es = vs(entries@);
proof { assert(es[0] == entries@[0]@); }
//@ preloop 1
let ghost h = blob@;
proof { assert(cat(es.take(0)) =~= Seq::<u8>::empty()); }
//@ loop 1
invariant k <= entries@.len(), es == vs(entries@), blob@ =~= h + cat(es.take(k as int)),
decreases entries@.len() - k,
//@ loopend 1
proof { assert(es.take(k as int).drop_last() =~= es.take(k - 1)); assert(es.take(k as int).last() == es[k - 1]); assert(es[k - 1] == entry@); }
//@ postloop 1
proof { assert(es.take(k as int) =~= es); }
//@ end
//@ fn grovedb-bulk-append-tree/src/chunk.rs serialize_variable
//@ ret r
//@ spec
    requires entries@.len() > 0, !same_len(vs(entries@))
    ensures fits(vs(entries@)) ==> r.is_ok(), r.is_ok() ==> r.unwrap()@ =~= enc(vs(entries@))
//@ at start
let ghost es = vs(entries@);
//@ preloop 1
let ghost h = blob@;
proof { assert(venc(es.take(0)) =~= Seq::<u8>::empty()); }
//@ loop 1
invariant k <= entries@.len(), es == vs(entries@), h == seq![0u8], blob@ =~= h + venc(es.take(k as int)),
decreases entries@.len() - k,
//@ loopstart 1
proof { assert(es[k as int] == entries@[k as int]@); }
//@ loopend 1
proof { assert(es.take(k as int).drop_last() =~= es.take(k - 1)); assert(es.take(k as int).last() == es[k - 1]); }
//@ postloop 1
proof { assert(es.take(k as int) =~= es); }
//@ end
//@ fn grovedb-bulk-append-tree/src/chunk.rs deserialize_chunk_blob
//@ ret r
//@ spec
    ensures r.is_ok() == dec(blob@).is_some(), r.is_ok() ==> vs(r.unwrap()@) =~= dec(blob@).unwrap()
//@ end
//@ fn grovedb-bulk-append-tree/src/chunk.rs deserialize_fixed
//@ ret r
//@ spec
    ensures r.is_ok() == fdec(data@).is_some(), r.is_ok() ==> vs(r.unwrap()@) =~= fdec(data@).unwrap()
//@ at start
proof { axiom_slice_len(data); assert(MAX_CHUNK_ENTRIES == 1048576) by (compute); }
//@ preloop 1
let ghost (n, s) = (count as int, entry_size as int);
//@ loop 1
invariant i <= count, n == count, s == entry_size, n * s == payload@.len(), payload@.len() <= 0x7fff_ffff_ffff_ffff, s <= u32::MAX, vs(entries@) =~= pieces(payload@, i as int, s),
decreases count - i,
//@ loopstart 1
proof { assert(0 <= i * s && i * s + s <= n * s) by (nonlinear_arith) requires 0 <= i < n, s >= 0; }
let ghost e0 = vs(entries@);
//@ loopend 1
proof { assert(vs(entries@) =~= e0.push(payload@.subrange((i - 1) * s, (i - 1) * s + s))); }
//@ end
//@ fn grovedb-bulk-append-tree/src/chunk.rs deserialize_variable
//@ ret r
//@ spec
    ensures r.is_ok() == vdec(data@, 1048576).is_some(), r.is_ok() ==> vs(r.unwrap()@) =~= vdec(data@, 1048576).unwrap()
//@ at start
proof { axiom_slice_len(data); assert(MAX_CHUNK_ENTRIES == 1048576) by (compute); }
//@ preloop 1
proof { assert(data@.skip(0) =~= data@); assert(forall|x: Option<L>| #[trigger] prepend(vs(entries@), x) == x) by { assert forall|x: Option<L>| #[trigger] prepend(vs(entries@), x) == x by { if x.is_some() { assert(vs(entries@) + x.unwrap() =~= x.unwrap()); } } } }
//@ loop 1
invariant offset <= data@.len(), data@.len() <= 0x7fff_ffff_ffff_ffff, entries@.len() <= 1048576, vdec(data@, 1048576) == prepend(vs(entries@), vdec(data@.skip(offset as int), 1048576 - entries@.len())),
decreases data@.len() - offset,
//@ loopstart 1
let ghost (o, e0) = (offset as int, vs(entries@)); let ghost d = data@.skip(o); let ghost room = 1048576 - entries@.len();
proof { assert(MAX_CHUNK_ENTRIES == 1048576) by (compute); if d.len() >= 4 { assert(d.subrange(0, 4) =~= data@.subrange(o, o + 4)); } }
//@ loopend 1
proof {
    let l = len as int;
    assert(d.subrange(4, 4 + l) =~= data@.subrange(o + 4, o + 4 + l));
    assert(d.skip(4 + l) =~= data@.skip(offset as int));
    assert(vs(entries@) =~= e0.push(d.subrange(4, 4 + l)));
    let x = vdec(d.skip(4 + l), room - 1);
    if x.is_some() { assert(e0 + (seq![d.subrange(4, 4 + l)] + x.unwrap()) =~= vs(entries@) + x.unwrap()); }
}
//@ postloop 1
proof { assert(data@.skip(offset as int).len() == 0); assert(vs(entries@) + Seq::<Seq<u8>>::empty() =~= vs(entries@)); }
//@ end
