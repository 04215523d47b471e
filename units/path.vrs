// C15: a subtree path is its list of segments, however represented. path/src
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;

// ---- trusted primitives ---------------------------------------------------
// native-endian bytes of a length: 8 bytes, and decoding them gives the length back
pub uninterp spec fn enc(n: nat) -> Seq<u8>;
pub axiom fn axiom_enc() ensures forall|n: nat| (#[trigger] enc(n)).len() == 8, forall|a: nat, b: nat| #[trigger] enc(a) == #[trigger] enc(b) ==> a == b;
#[verifier::external_body] pub fn len_to_bytes(n: usize) -> (r: [u8; 8]) ensures r@ == enc(n as nat) { unimplemented!() }
#[verifier::external_body] pub fn len_from_bytes(b: &[u8]) -> (r: usize)
    requires b@.len() == 8 ensures forall|n: nat| b@ == #[trigger] enc(n) && n <= usize::MAX ==> r == n { unimplemented!() }
#[verifier::external_body] pub fn subslice<'a>(v: &'a Vec<u8>, a: usize, b: usize) -> (r: &'a [u8])
    requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body] pub fn copy_bytes(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
// the bytes behind AsRef<[u8]>
pub uninterp spec fn bytes_of<B>(b: B) -> Seq<u8>;
#[verifier::external_body] pub fn as_bytes<'a, B>(b: &'a B) -> (r: &'a [u8]) ensures r@ == bytes_of(*b) { unimplemented!() }
// std's slice iterator, consumed from the back
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct SliceIter<'b, B> { x: &'b [B] }
impl<'b, B> View for SliceIter<'b, B> { type V = Seq<B>; uninterp spec fn view(&self) -> Seq<B>; }
impl<'b, B> SliceIter<'b, B> {
    #[verifier::external_body] pub fn next_back(&mut self) -> (r: Option<&'b B>)
        ensures old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r.is_some() && *r->0 == old(self)@.last() && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] pub fn slice_iter<'b, B>(s: &'b [B]) -> (r: SliceIter<'b, B>) ensures r@ == s@ { unimplemented!() }
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r.is_none(), s@.len() > 0 ==> r.is_some() && *r.unwrap().0 == s@.last() && r.unwrap().1@ == s@.drop_last();

// ---- what the representations mean -----------------------------------------
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() + enc(s.last().len()) } }
pub open spec fn cb_is(data: Seq<u8>, n: nat, s: Seq<Seq<u8>>) -> bool { data == flat(s) && n == s.len() }
pub proof fn lemma_flat_len(s: Seq<Seq<u8>>) ensures flat(s).len() >= 8 * s.len() decreases s.len()
{ axiom_enc(); if s.len() > 0 { lemma_flat_len(s.drop_last()); } }
// the segment list is determined by the bytes
pub proof fn lemma_flat_inj(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires flat(a) == flat(b), a.len() == b.len()
    ensures a == b
    decreases a.len()
{
    axiom_enc();
    if a.len() > 0 {
        let f = flat(a); let n = f.len();
        assert(f.subrange(n - 8, n as int) == enc(a.last().len()));
        assert(f.subrange(n - 8, n as int) == enc(b.last().len())) by { assert(flat(b) == flat(b.drop_last()) + b.last() + enc(b.last().len())); }
        let l = a.last().len();
        assert(l == b.last().len());
        assert(f.subrange(n - 8 - l, n - 8) == a.last());
        assert(f.subrange(n - 8 - l, n - 8) == b.last());
        assert(f.subrange(0, n - 8 - l) == flat(a.drop_last()));
        assert(f.subrange(0, n - 8 - l) == flat(b.drop_last()));
        lemma_flat_inj(a.drop_last(), b.drop_last());
        assert(a == a.drop_last().push(a.last()));
        assert(b == b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lemma_flat_last(s: Seq<Seq<u8>>)
    requires s.len() > 0
    ensures flat(s).len() == flat(s.drop_last()).len() + s.last().len() + 8,
        flat(s).subrange(flat(s).len() - 8, flat(s).len() as int) == enc(s.last().len()),
        flat(s).subrange(flat(s).len() - 8 - s.last().len(), flat(s).len() - 8) == s.last(),
        flat(s).subrange(0, flat(s).len() - 8 - s.last().len()) == flat(s.drop_last()),
{
    axiom_enc();
    let f = flat(s); let n = f.len();
    assert(f.subrange(n - 8, n as int) == enc(s.last().len()));
    assert(f.subrange(n - 8 - s.last().len(), n - 8) == s.last());
    assert(f.subrange(0, n - 8 - s.last().len()) == flat(s.drop_last()));
}
pub proof fn lemma_flat_empty(s: Seq<Seq<u8>>) requires flat(s).len() == 0 ensures s.len() == 0 { lemma_flat_len(s); }
pub proof fn lemma_flat_push(s: Seq<Seq<u8>>, x: Seq<u8>) ensures flat(s.push(x)) == flat(s) + x + enc(x.len())
{ assert(s.push(x).drop_last() == s); }

//@ rules
mem::size_of::<usize>() ==> 8usize
segment.len().to_ne_bytes() ==> len_to_bytes(segment.len())
usize::from_ne_bytes($v..[$a.. .. ].try_into().expect($m $d..)$c..) ==> len_from_bytes(subslice(&$v, $a, $v.len()))
usize::from_ne_bytes($v..[$a.. .. $b..].try_into().expect($m $d..)$c..) ==> len_from_bytes(subslice(&$v, $a, $b))
slice::Iter<'b, B> ==> SliceIter<'b, B>
SubtreePathInner::Slice($x..).into() ==> SubtreePath { ref_variant: SubtreePathInner::Slice($x) }
SubtreePathInner::SubtreePath($x..).into() ==> SubtreePath { ref_variant: SubtreePathInner::SubtreePath($x) }
SubtreePathInner::SubtreePathIter($x..).into() ==> SubtreePath { ref_variant: SubtreePathInner::SubtreePathIter($x) }
key.to_vec() ==> copy_bytes(key)
$a.clone().into_reverse_iter().eq($b..) } ==> let l = $a.clone().into_reverse_iter(); let r = $b; iters_eq(l, r) }
self.reverse_iter().eq($b..) } ==> let l = self.reverse_iter(); let r = $b; iters_eq(l, r) }
iter_a.len().cmp(&iter_b.len()) ==> ucmp(iter_a.len(), iter_b.len())
Some($a.. .then_with(|| $b..),) ==> Some(ord_then($a, $b))
iter_a.cmp(iter_b) ==> iters_cmp(iter_a, iter_b)
self.partial_cmp($x..).expect($m..) ==> self.partial_cmp($x).unwrap()
slice.iter().map(AsRef::as_ref).rev().for_each(|s| s.hash(state)) ==> hash_slice(slice, state)
path_iter.clone().for_each(|s| s.hash(state)) ==> hash_iter(path_iter.clone(), state)
bytes.reverse_iter().for_each(|segment| segment.hash(state)) ==> hash_bytes(bytes.reverse_iter(), state)
self.deref().hash(state) ==> feed(self.deref(), state)
slice.iter().map(|x| x.as_ref().to_vec()).collect() ==> slice_vec(slice)
iter.clone().map(|x| x.as_ref().to_vec()).collect::<Vec<Vec<u8>>>() ==> { let mut z = Vec::new(); push_iter(iter.clone(), &mut z); z }
bytes.reverse_iter().for_each(|s| result.push(s.to_vec())) ==> push_bytes(bytes.reverse_iter(), &mut result)
slice.iter().rev().for_each(|x| result.push(x.as_ref().to_vec())) ==> push_slice(slice, &mut result)
path.reverse_iter().for_each(|x| result.push(x.to_vec())) ==> push_iter(path.reverse_iter(), &mut result)
iter.clone().for_each(|x| result.push(x.as_ref().to_vec())) ==> push_iter(iter.clone(), &mut result)
result.push(s.to_vec()) ==> result.push(copy_bytes(s.deref()))
$v.reverse(); ==> rev_vec(&mut $v);
iter.into_iter().fold($i.., |mut bytes, s| { $b..; bytes }) ==> { let mut bytes = $i; let mut k: usize = 0; while k < iter.len() { let s = &iter[k]; k += 1; $b; } bytes }
s.as_ref() ==> as_bytes(s)
[].as_ref().into() ==> SubtreePath { ref_variant: SubtreePathInner::Slice(no_elements()) }
SubtreePathInner::Slice(&[]) ==> SubtreePathInner::Slice(no_elements())
//@ end

//@ type path/src/util/compact_bytes.rs CompactBytes
pub open spec fn cb_ok(cb: CompactBytes) -> bool { exists|s: Seq<Seq<u8>>| cb_is(cb.data@, cb.n_segments as nat, s) }
pub open spec fn cb_view(cb: CompactBytes) -> Seq<Seq<u8>> { choose|s: Seq<Seq<u8>>| cb_is(cb.data@, cb.n_segments as nat, s) }
pub proof fn lemma_cb(cb: CompactBytes, s: Seq<Seq<u8>>) requires cb_is(cb.data@, cb.n_segments as nat, s) ensures cb_view(cb) == s, cb_ok(cb)
{ lemma_flat_inj(cb_view(cb), s); }
//@ type path/src/util/compact_bytes.rs CompactBytesIter
//@ attr #[derive(Clone, Copy)]
//@ end
pub open spec fn it_is(it: CompactBytesIter, s: Seq<Seq<u8>>) -> bool {
    it.n_segments_left == s.len() && it.offset_back <= it.bytes.data@.len() && it.bytes.data@.subrange(0, it.offset_back as int) == flat(s)
}
pub open spec fn cit_ok(it: CompactBytesIter) -> bool { exists|s: Seq<Seq<u8>>| it_is(it, s) }
pub open spec fn cit_view(it: CompactBytesIter) -> Seq<Seq<u8>> { choose|s: Seq<Seq<u8>>| it_is(it, s) }
pub proof fn lemma_cit(it: CompactBytesIter, s: Seq<Seq<u8>>) requires it_is(it, s) ensures cit_view(it) == s, cit_ok(it)
{ lemma_flat_inj(cit_view(it), s); }

impl CompactBytes {
#[verifier::external_body]
pub fn default() -> (r: Self) ensures r.n_segments == 0, r.data@.len() == 0 { unimplemented!() }
//@ fn path/src/util/compact_bytes.rs CompactBytes::new
//@ ret r
//@ spec
    ensures cb_ok(r), cb_view(r) == Seq::<Seq<u8>>::empty()
//@ rule1 Self::default() ==> ({ let z = Self::default(); proof { assert(z.data@ =~= flat(Seq::empty())); lemma_cb(z, Seq::empty()); } z })
//@ end
//@ fn path/src/util/compact_bytes.rs CompactBytes::add_segment
//@ spec
    requires cb_ok(*old(self))
    ensures cb_ok(*final(self)), cb_view(*final(self)) == cb_view(*old(self)).push(segment@)
//@ at start
let ghost s = cb_view(*self);
proof { axiom_enc(); lemma_flat_len(s); lemma_flat_push(s, segment@); }
//@ after #2 extend_from_slice
proof { assert(self.data@ =~= flat(s.push(segment@))); lemma_flat_len(s.push(segment@)); assert(self.data.len() == self.data@.len()); }
//@ at end
proof { lemma_cb(*self, s.push(segment@)); }
//@ end
//@ fn path/src/util/compact_bytes.rs CompactBytes::reverse_iter
//@ ret r
//@ sig CompactBytesIter<'_> ==> CompactBytesIter
//@ spec
    requires cb_ok(*self)
    ensures cit_ok(r), cit_view(r) == cb_view(*self)
//@ rule1 CompactBytesIter { $b.. } ==> { let z = CompactBytesIter { $b }; proof { assert(z.bytes.data@.subrange(0, z.offset_back as int) =~= self.data@); lemma_cit(z, cb_view(*self)); } z }
//@ end
//@ fn path/src/util/compact_bytes.rs CompactBytes::len
//@ ret r
//@ spec
    requires cb_ok(*self)
    ensures r == cb_view(*self).len()
//@ end
//@ fn path/src/util/compact_bytes.rs CompactBytes::pop_segment
//@ ret r
//@ rule self.data[$a.. .. $b..].to_vec() ==> copy_bytes(subslice(&self.data, $a, $b))
//@ spec
    requires cb_ok(*old(self))
    ensures cb_ok(*final(self)),
        match r {
            None => cb_view(*old(self)).len() == 0 && *final(self) == *old(self),
            Some(x) => cb_view(*old(self)).len() > 0 && x@ == cb_view(*old(self)).last() && cb_view(*final(self)) == cb_view(*old(self)).drop_last(),
        }
//@ at start
let ghost s = cb_view(*self);
//@ before let length_size
proof { axiom_enc(); lemma_flat_last(s); }
//@ before Some(segment)
proof { assert(self.data@ == flat(s.drop_last())); lemma_cb(*self, s.drop_last()); }
//@ end
}
impl<'a> CompactBytesIter<'a> {
//@ fn path/src/util/compact_bytes.rs Iterator for CompactBytesIter::next
//@ ret r
//@ sig Self::Item ==> &'a [u8]
//@ rule &self.bytes.data[$a.. .. $b..] ==> subslice(&self.bytes.data, $a, $b)
//@ spec
    requires cit_ok(*old(self))
    ensures cit_ok(*final(self)),
        match r {
            None => cit_view(*old(self)).len() == 0 && *final(self) == *old(self),
            Some(x) => cit_view(*old(self)).len() > 0 && x@ == cit_view(*old(self)).last() && cit_view(*final(self)) == cit_view(*old(self)).drop_last(),
        }
//@ at start
let ghost s = cit_view(*self); let ghost o = self.offset_back; let ghost d = self.bytes.data@;
proof { axiom_enc(); if o == 0 { lemma_flat_empty(s); } else if s.len() == 0 { assert(flat(s).len() == 0); } else {
  lemma_flat_last(s);
  let f = flat(s);
  assert(f == d.subrange(0, o as int));
  assert(d.subrange(o - 8, o as int) =~= f.subrange(o - 8, o as int));
  assert(d.subrange(o - 8 - s.last().len(), o - 8) =~= f.subrange(o - 8 - s.last().len(), o - 8));
  assert(d.subrange(0, o - 8 - s.last().len()) =~= f.subrange(0, o - 8 - s.last().len()));
} }
//@ before Some(segment)
proof { lemma_cit(*self, s.drop_last()); }
//@ end
//@ fn path/src/util/compact_bytes.rs Iterator for CompactBytesIter::size_hint
//@ ret r
//@ spec
    requires cit_ok(*self)
    ensures r.0 == cit_view(*self).len(), r.1 == Some(r.0)
//@ end
#[verifier::external_body] // ExactSizeIterator::len: the exact size hint
pub fn len(&self) -> (r: usize) requires cit_ok(*self) ensures r == cit_view(*self).len() { unimplemented!() }
}

//@ type path/src/util/cow_like.rs CowLike
pub open spec fn cow(c: CowLike) -> Seq<u8> { match c { CowLike::Owned(v) => v@, CowLike::Borrowed(b) => b@ } }
impl<'b> CowLike<'b> {
//@ fn path/src/util/cow_like.rs Deref for CowLike::deref
//@ sig Self::Target ==> [u8]
//@ ret r
//@ spec
    ensures r@ == cow(*self)
//@ end
}
//@ type path/src/subtree_path.rs SubtreePathInner
//@ attr #[verifier::reject_recursive_types(B)]
//@ end
//@ type path/src/subtree_path.rs SubtreePath
//@ attr #[verifier::reject_recursive_types(B)]
//@ end
//@ type path/src/subtree_path_builder.rs SubtreePathRelative
//@ type path/src/subtree_path_builder.rs SubtreePathBuilder
//@ attr #[verifier::reject_recursive_types(B)]
//@ end
//@ type path/src/subtree_path_iter.rs CurrentSubtreePathIter
//@ attr #[verifier::reject_recursive_types(B)]
//@ end
//@ type path/src/subtree_path_iter.rs SubtreePathIter
//@ attr #[verifier::reject_recursive_types(B)]
//@ end

// segments from the root down
pub open spec fn rel_view(r: SubtreePathRelative) -> Seq<Seq<u8>> {
    match r { SubtreePathRelative::Empty => Seq::empty(), SubtreePathRelative::Single(c) => seq![cow(c)], SubtreePathRelative::Multi(b) => cb_view(b) }
}
pub open spec fn rel_ok(r: SubtreePathRelative) -> bool { match r { SubtreePathRelative::Multi(b) => cb_ok(b), _ => true } }
pub open spec fn cur_view<B>(c: CurrentSubtreePathIter<B>) -> Seq<Seq<u8>> {
    match c { CurrentSubtreePathIter::Single(x) => seq![x@], CurrentSubtreePathIter::Slice(i) => i@.map_values(|b: B| bytes_of(b)), CurrentSubtreePathIter::OwnedBytes(b) => cit_view(b) }
}
pub open spec fn cur_ok<B>(c: CurrentSubtreePathIter<B>) -> bool { match c { CurrentSubtreePathIter::OwnedBytes(b) => cit_ok(b), _ => true } }
pub open spec fn pv<B>(p: SubtreePath<B>) -> Seq<Seq<u8>>
    decreases p
{
    match p.ref_variant {
        SubtreePathInner::Slice(s) => s@.map_values(|b: B| bytes_of(b)),
        SubtreePathInner::SubtreePath(b) => bv(*b),
        SubtreePathInner::SubtreePathIter(i) => iv(i),
    }
}
pub open spec fn bv<B>(b: SubtreePathBuilder<B>) -> Seq<Seq<u8>> decreases b { pv(b.base) + rel_view(b.relative) }
pub open spec fn iv<B>(i: SubtreePathIter<B>) -> Seq<Seq<u8>> decreases i {
    (match i.next_subtree_path { Some(p) => pv(*p), None => Seq::empty() }) + cur_view(i.current_iter)
}
// representation invariant
pub open spec fn pok<B>(p: SubtreePath<B>) -> bool
    decreases p
{
    match p.ref_variant { SubtreePathInner::Slice(s) => true, SubtreePathInner::SubtreePath(b) => bok(*b), SubtreePathInner::SubtreePathIter(i) => iok(i) }
}
pub open spec fn bok<B>(b: SubtreePathBuilder<B>) -> bool decreases b { pok(b.base) && rel_ok(b.relative) }
pub open spec fn iok<B>(i: SubtreePathIter<B>) -> bool decreases i {
    &&& cur_ok(i.current_iter)
    &&& match i.next_subtree_path { Some(p) => pok(*p), None => !(i.current_iter is Single) }
}
// nesting depth, the termination measure of iteration
pub open spec fn pd<B>(p: SubtreePath<B>) -> nat
    decreases p
{
    match p.ref_variant { SubtreePathInner::Slice(s) => 0, SubtreePathInner::SubtreePath(b) => bd(*b), SubtreePathInner::SubtreePathIter(i) => id(i) }
}
pub open spec fn bd<B>(b: SubtreePathBuilder<B>) -> nat decreases b { 1 + pd(b.base) }
pub open spec fn id<B>(i: SubtreePathIter<B>) -> nat decreases i { match i.next_subtree_path { Some(p) => 1 + pd(*p), None => 0 } }

impl<'r> SubtreePathRelative<'r> {
//@ fn path/src/subtree_path_builder.rs SubtreePathRelative::len
//@ ret r
//@ spec
    requires rel_ok(*self)
    ensures r == rel_view(*self).len()
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathRelative::is_empty
//@ ret r
//@ spec
    requires rel_ok(*self)
    ensures r == (rel_view(*self).len() == 0)
//@ end
}
impl<'b, B> CurrentSubtreePathIter<'b, B> {
//@ fn path/src/subtree_path_iter.rs CurrentSubtreePathIter::len
//@ ret r
//@ spec
    requires cur_ok(*self)
    ensures r == cur_view(*self).len()
//@ end
//@ fn path/src/subtree_path_iter.rs Clone for CurrentSubtreePathIter::clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
}
impl<'b, B> SubtreePath<'b, B> {
//@ fn path/src/subtree_path.rs Clone for SubtreePath::clone
//@ ret r
//@ rule match &self.ref_variant { $b.. }.into() ==> SubtreePath { ref_variant: match &self.ref_variant { $b } }
//@ spec
    ensures r == *self
    decreases self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::len
//@ ret r
//@ spec
    requires pok(*self), pv(*self).len() <= usize::MAX
    ensures r == pv(*self).len()
    decreases *self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::is_empty
//@ ret r
//@ spec
    requires pok(*self), pv(*self).len() <= usize::MAX
    ensures r == (pv(*self).len() == 0)
    decreases *self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::is_root
//@ ret r
//@ spec
    requires pok(*self), pv(*self).len() <= usize::MAX
    ensures r == (pv(*self).len() == 0)
    decreases *self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::derive_owned
//@ ret r
//@ rule self.into() ==> SubtreePathBuilder::from(self)
//@ spec
    requires pok(*self)
    ensures bok(r), bv(r) == pv(*self), r.base == *self
//@ at start
proof { assert(pv(*self) + Seq::<Seq<u8>>::empty() =~= pv(*self)); }
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::derive_owned_with_child
//@ sig derive_owned_with_child<'s, S>(&self, segment: S) ==> derive_owned_with_child<'s>(&self, segment: CowLike<'s>)
//@ sig where S: Into<CowLike<'s>>, ==> where
//@ rule segment.into() ==> segment
//@ ret r
//@ spec
    requires pok(*self)
    ensures bok(r), bv(r) == pv(*self).push(cow(segment))
//@ at start
proof { assert(pv(*self) + seq![cow(segment)] =~= pv(*self).push(cow(segment))); }
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::derive_parent
//@ ret r
//@ rule path.split_last().map(|(tail, rest)| ($a.., tail.as_ref())) ==> (match path.split_last() { Some((tail, rest)) => Some(($a, as_bytes(tail))), None => None })
//@ rule derived_iter.next().map(|segment| { $b.. }) ==> (match derived_iter.next() { Some(segment) => Some({ $b }), None => None })
//@ spec
    requires pok(*self)
    ensures match r {
        None => pv(*self).len() == 0,
        Some((p, x)) => pv(*self).len() > 0 && pok(p) && pv(p) =~= pv(*self).drop_last() && x@ == pv(*self).last(),
    }
    decreases *self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::into_reverse_iter
//@ ret r
//@ rule SubtreePathIter::new(slice.iter()) ==> SubtreePathIter::new(CurrentSubtreePathIter::Slice(slice_iter(slice)))
//@ spec
    requires pok(self)
    ensures iok(r), iv(r) =~= pv(self), id(r) <= pd(self)
    decreases self
//@ end
}
impl<'b, B> SubtreePathIter<'b, B> {
//@ fn path/src/subtree_path_iter.rs Clone for SubtreePathIter::clone
//@ ret r
//@ spec
    ensures r == *self
//@ end
//@ fn path/src/subtree_path_iter.rs SubtreePathIter::len
//@ ret r
//@ rule self.next_subtree_path.map(|p| p.len()).unwrap_or_default() ==> (match self.next_subtree_path { Some(p) => p.len(), None => 0 })
//@ spec
    requires iok(*self), iv(*self).len() <= usize::MAX
    ensures r == iv(*self).len()
    decreases *self
//@ end
//@ fn path/src/subtree_path_iter.rs SubtreePathIter::is_empty
//@ ret r
//@ spec
    requires iok(*self), iv(*self).len() <= usize::MAX
    ensures r == (iv(*self).len() == 0)
    decreases *self
//@ end
//@ fn path/src/subtree_path_iter.rs SubtreePathIter::new
//@ sig new<I>(iter: I) ==> new(iter: CurrentSubtreePathIter<'b, B>)
//@ sig where I: Into<CurrentSubtreePathIter<'b, B>>, ==> where
//@ rule iter.into() ==> iter
//@ ret r
//@ spec
    requires cur_ok(iter), !(iter is Single)
    ensures iok(r), iv(r) =~= cur_view(iter), id(r) == 0
//@ end
//@ fn path/src/subtree_path_iter.rs SubtreePathIter::new_with_next
//@ sig new_with_next<I>(iter: I, ==> new_with_next(iter: CurrentSubtreePathIter<'b, B>,
//@ sig where I: Into<CurrentSubtreePathIter<'b, B>>, ==> where
//@ rule iter.into() ==> iter
//@ ret r
//@ spec
    requires cur_ok(iter), pok(*next)
    ensures iok(r), iv(r) == pv(*next) + cur_view(iter), id(r) == 1 + pd(*next)
//@ end
//@ fn path/src/subtree_path_iter.rs Iterator for SubtreePathIter::next
//@ sig Self::Item ==> &'b [u8]
//@ rule item.as_ref() ==> as_bytes(item)
//@ ret r
//@ spec
    requires iok(*old(self))
    ensures iok(*final(self)), id(*final(self)) <= id(*old(self)),
        match r {
            None => iv(*old(self)).len() == 0 && iv(*final(self)).len() == 0,
            Some(x) => iv(*old(self)).len() > 0 && x@ == iv(*old(self)).last() && iv(*final(self)) =~= iv(*old(self)).drop_last(),
        }
    decreases id(*old(self))
//@ end
}
impl<'b, B> SubtreePathBuilder<'b, B> {
//@ fn path/src/subtree_path_builder.rs From<&'s SubtreePath<'b, B>> for SubtreePathBuilder::from
//@ sig from(value ==> from<'s>(value
//@ ret r
//@ spec
    ensures r.base == *value, r.relative is Empty
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::len
//@ ret r
//@ spec
    requires bok(*self), bv(*self).len() <= usize::MAX
    ensures r == bv(*self).len()
    decreases *self
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::is_empty
//@ ret r
//@ spec
    requires bok(*self), bv(*self).len() <= usize::MAX
    ensures r == (bv(*self).len() == 0)
    decreases *self
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::is_root
//@ ret r
//@ spec
    requires bok(*self), bv(*self).len() <= usize::MAX
    ensures r == (bv(*self).len() == 0)
    decreases *self, 1nat
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::push_segment
//@ rule bytes.add_segment(old_segment) ==> bytes.add_segment(old_segment.deref())
//@ spec
    requires bok(*old(self))
    ensures bok(*final(self)), bv(*final(self)) =~= bv(*old(self)).push(segment@), final(self).base == old(self).base
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::derive_owned
//@ ret r
//@ spec
    requires bok(*self)
    ensures bok(r), bv(r) =~= bv(*self)
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::derive_owned_with_child
//@ sig derive_owned_with_child<'s, S>(&'b self, segment: S) ==> derive_owned_with_child<'s>(&'b self, segment: CowLike<'s>)
//@ sig where S: Into<CowLike<'s>>, ==> where
//@ rule segment.into() ==> segment
//@ ret r
//@ spec
    requires bok(*self)
    ensures bok(r), bv(r) =~= bv(*self).push(cow(segment))
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::reverse_iter
//@ rule item.as_ref() ==> CurrentSubtreePathIter::Single(item.deref())
//@ rule SubtreePathIter::new_with_next(bytes.reverse_iter(), ==> SubtreePathIter::new_with_next(CurrentSubtreePathIter::OwnedBytes(bytes.reverse_iter()),
//@ ret r
//@ spec
    requires bok(*self)
    ensures iok(r), iv(r) =~= bv(*self), id(r) <= bd(*self)
    decreases *self
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::derive_parent
//@ rule iter.next().map(|segment| ($a.., segment)) ==> (match iter.next() { Some(segment) => Some(($a, segment)), None => None })
//@ rule relative.as_ref() ==> relative.deref()
//@ ret r
//@ spec
    requires bok(*self)
    ensures match r {
        None => bv(*self).len() == 0,
        Some((p, x)) => bv(*self).len() > 0 && pok(p) && pv(p) =~= bv(*self).drop_last() && x@ == bv(*self).last(),
    }
    decreases *self
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::derive_parent_owned
//@ rule self.base.derive_parent().map(|(path, key)| ($a.., $b..)) ==> (match self.base.derive_parent() { Some((path, key)) => Some(($a, $b)), None => None })
//@ rule relative.to_vec() ==> copy_bytes(relative.deref())
//@ rule bytes.clone() ==> clone_cb(bytes)
//@ ret r
//@ spec
    requires bok(*self)
    ensures match r {
        None => bv(*self).len() == 0,
        Some((p, x)) => bv(*self).len() > 0 && bok(p) && bv(p) =~= bv(*self).drop_last() && x@ == bv(*self).last(),
    }
    decreases *self
//@ end
}

// ---- equality, order, hash, list of segments -----------------------------------
// std's order on byte strings, a total order
pub uninterp spec fn bcmp(a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub axiom fn axiom_bcmp() ensures
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] bcmp(a, b) is Equal <==> a == b,
    forall|a: Seq<u8>, b: Seq<u8>| #[trigger] bcmp(a, b) is Less <==> bcmp(b, a) is Greater,
    forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] bcmp(a, b) is Less && #[trigger] bcmp(b, c) is Less ==> bcmp(a, c) is Less;
#[verifier::external_body] pub fn bytes_cmp(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == bcmp(a@, b@) { a.cmp(b) }
pub open spec fn ncmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body] pub fn ucmp(a: usize, b: usize) -> (r: Ordering) ensures r == ncmp(a as int, b as int) { a.cmp(&b) }
pub open spec fn orev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == orev(o);
pub open spec fn othen(o: Ordering, p: Ordering) -> Ordering { if o is Equal { p } else { o } }
pub fn ord_then(o: Ordering, p: Ordering) -> (r: Ordering) ensures r == othen(o, p) { match o { Ordering::Equal => p, _ => o } }
// segment by segment from the deepest, as std compares iterators
pub open spec fn scmp(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
    else { othen(bcmp(a.last(), b.last()), scmp(a.drop_last(), b.drop_last())) }
}
pub open spec fn pathcmp(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> Ordering { othen(orev(ncmp(a.len() as int, b.len() as int)), scmp(a, b)) }
pub proof fn scmp_eq(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures scmp(a, b) is Equal <==> a == b decreases a.len()
{
    axiom_bcmp();
    if a.len() == 0 { assert(b.len() == 0 ==> a =~= b); }
    else if b.len() > 0 { scmp_eq(a.drop_last(), b.drop_last()); if a.drop_last() == b.drop_last() && a.last() == b.last() { assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last())); } }
}
pub proof fn scmp_flip(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures scmp(a, b) is Less <==> scmp(b, a) is Greater decreases a.len()
{ axiom_bcmp(); if a.len() > 0 && b.len() > 0 { scmp_flip(a.drop_last(), b.drop_last()); assert(bcmp(a.last(), b.last()) is Equal <==> bcmp(b.last(), a.last()) is Equal); } }
pub proof fn scmp_trans(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    requires scmp(a, b) is Less, scmp(b, c) is Less ensures scmp(a, c) is Less
    decreases a.len()
{
    axiom_bcmp();
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        let x = a.last(); let y = b.last(); let z = c.last();
        if bcmp(x, y) is Equal && bcmp(y, z) is Equal { scmp_trans(a.drop_last(), b.drop_last(), c.drop_last()); }
        else if bcmp(x, y) is Less && bcmp(y, z) is Less { assert(bcmp(x, z) is Less); }
    }
}
// C15: the order is total and agrees with equality of the segments
pub proof fn theorem_order(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    ensures
        pathcmp(a, b) is Equal <==> a == b,
        pathcmp(a, b) is Less <==> pathcmp(b, a) is Greater,
        pathcmp(a, b) is Less && pathcmp(b, c) is Less ==> pathcmp(a, c) is Less,
{ scmp_eq(a, b); scmp_flip(a, b); if a.len() == b.len() && b.len() == c.len() && scmp(a, b) is Less && scmp(b, c) is Less { scmp_trans(a, b, c); } }

// std's Iterator::eq, cmp and for_each, by the contract of `next`
#[verifier::external_body] pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::loop_isolation(false)]
pub fn iters_eq<'a, 'b, A, B>(x: SubtreePathIter<'a, A>, y: SubtreePathIter<'b, B>) -> (r: bool)
    requires iok(x), iok(y) ensures r == (iv(x) == iv(y))
{
    let mut x = x; let mut y = y; let ghost x0 = iv(x); let ghost y0 = iv(y);
    loop
        invariant iok(x), iok(y), (x0 == y0) == (iv(x) == iv(y)),
        decreases iv(x).len()
    {
        let ghost a = iv(x); let ghost b = iv(y);
        let n = x.next(); let m = y.next();
        proof { if a.len() > 0 { assert(a =~= a.drop_last().push(a.last())); } if b.len() > 0 { assert(b =~= b.drop_last().push(b.last())); } }
        match n {
            None => { match m { None => { assert(a =~= b); return true; } Some(_) => { return false; } } }
            Some(p) => { match m { None => { return false; } Some(q) => { if !bytes_eq(p, q) { return false; } } } }
        }
    }
}
#[verifier::loop_isolation(false)]
pub fn iters_cmp<'a, 'b, A, B>(x: SubtreePathIter<'a, A>, y: SubtreePathIter<'b, B>) -> (r: Ordering)
    requires iok(x), iok(y) ensures r == scmp(iv(x), iv(y))
{
    let mut x = x; let mut y = y; let ghost all = scmp(iv(x), iv(y)); proof { axiom_bcmp(); }
    loop
        invariant iok(x), iok(y), all == scmp(iv(x), iv(y)),
        decreases iv(x).len()
    {
        let n = x.next(); let m = y.next();
        match n {
            None => { match m { None => { return Ordering::Equal; } Some(_) => { return Ordering::Less; } } }
            Some(p) => { match m { None => { return Ordering::Greater; } Some(q) => { match bytes_cmp(p, q) { Ordering::Equal => {} o => { return o; } } } } }
        }
    }
}
// what a hasher was fed
#[verifier::external_body] pub struct HState { x: u8 }
impl View for HState { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
#[verifier::external_body] pub fn feed(s: &[u8], state: &mut HState) ensures final(state)@ == old(state)@.push(s@) { unimplemented!() }
pub open spec fn dv(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
#[verifier::external_body] pub fn rev_vec(v: &mut Vec<Vec<u8>>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
pub axiom fn axiom_vec_bytes() ensures forall|v: Vec<u8>| #[trigger] bytes_of(v) == v@;
#[verifier::external_body] pub fn no_elements<'b, B>() -> (r: &'b [B]) ensures r@.len() == 0 { &[] }
#[verifier::loop_isolation(false)]
pub fn hash_iter<'b, B>(it: SubtreePathIter<'b, B>, state: &mut HState)
    requires iok(it) ensures final(state)@ =~= old(state)@ + iv(it).reverse()
{
    let mut it = it; let ghost i0 = iv(it); let ghost s0 = state@;
    loop
        invariant iok(it), state@ + iv(it).reverse() =~= s0 + i0.reverse(),
        decreases iv(it).len()
    { let ghost a = iv(it); let ghost b = state@; match it.next() { Some(s) => { feed(s, state); proof { assert(a.reverse() =~= seq![a.last()] + a.drop_last().reverse()); assert(state@ + iv(it).reverse() =~= b + a.reverse()); } } None => { return; } } }
}
#[verifier::loop_isolation(false)]
pub fn hash_bytes<'b>(it: CompactBytesIter<'b>, state: &mut HState)
    requires cit_ok(it) ensures final(state)@ =~= old(state)@ + cit_view(it).reverse()
{
    let mut it = it; let ghost i0 = cit_view(it); let ghost s0 = state@;
    loop
        invariant cit_ok(it), state@ + cit_view(it).reverse() =~= s0 + i0.reverse(),
        decreases cit_view(it).len()
    { let ghost a = cit_view(it); let ghost b = state@; match it.next() { Some(s) => { feed(s, state); proof { assert(a.reverse() =~= seq![a.last()] + a.drop_last().reverse()); assert(state@ + cit_view(it).reverse() =~= b + a.reverse()); } } None => { return; } } }
}
#[verifier::loop_isolation(false)]
pub fn hash_slice<B>(s: &[B], state: &mut HState)
    ensures final(state)@ =~= old(state)@ + s@.map_values(|b: B| bytes_of(b)).reverse()
{
    let ghost v = s@.map_values(|b: B| bytes_of(b)); let ghost s0 = state@; let mut k = s.len();
    while k > 0
        invariant k <= s@.len(), v == s@.map_values(|b: B| bytes_of(b)), state@ =~= s0 + v.skip(k as int).reverse(),
        decreases k
    { k -= 1; feed(as_bytes(&s[k]), state); proof { assert(v.skip(k as int) =~= seq![v[k as int]] + v.skip(k + 1)); } }
    proof { assert(v.skip(0) =~= v); }
}
#[verifier::loop_isolation(false)]
pub fn push_iter<'b, B>(it: SubtreePathIter<'b, B>, out: &mut Vec<Vec<u8>>)
    requires iok(it) ensures dv(final(out)@) =~= dv(old(out)@) + iv(it).reverse()
{
    let mut it = it; let ghost i0 = iv(it); let ghost s0 = dv(out@);
    loop
        invariant iok(it), dv(out@) + iv(it).reverse() =~= s0 + i0.reverse(),
        decreases iv(it).len()
    { let ghost a = iv(it); let ghost b = dv(out@); match it.next() { Some(s) => { out.push(copy_bytes(s)); proof { assert(dv(out@) =~= b.push(s@)); assert(a.reverse() =~= seq![a.last()] + a.drop_last().reverse()); assert(dv(out@) + iv(it).reverse() =~= b + a.reverse()); } } None => { return; } } }
}
#[verifier::loop_isolation(false)]
pub fn push_bytes<'b>(it: CompactBytesIter<'b>, out: &mut Vec<Vec<u8>>)
    requires cit_ok(it) ensures dv(final(out)@) =~= dv(old(out)@) + cit_view(it).reverse()
{
    let mut it = it; let ghost i0 = cit_view(it); let ghost s0 = dv(out@);
    loop
        invariant cit_ok(it), dv(out@) + cit_view(it).reverse() =~= s0 + i0.reverse(),
        decreases cit_view(it).len()
    { let ghost a = cit_view(it); let ghost b = dv(out@); match it.next() { Some(s) => { out.push(copy_bytes(s)); proof { assert(dv(out@) =~= b.push(s@)); assert(a.reverse() =~= seq![a.last()] + a.drop_last().reverse()); assert(dv(out@) + cit_view(it).reverse() =~= b + a.reverse()); } } None => { return; } } }
}
#[verifier::loop_isolation(false)]
pub fn push_slice<B>(s: &[B], out: &mut Vec<Vec<u8>>)
    ensures dv(final(out)@) =~= dv(old(out)@) + s@.map_values(|b: B| bytes_of(b)).reverse()
{
    let ghost v = s@.map_values(|b: B| bytes_of(b)); let ghost s0 = dv(out@); let mut k = s.len();
    while k > 0
        invariant k <= s@.len(), v == s@.map_values(|b: B| bytes_of(b)), dv(out@) =~= s0 + v.skip(k as int).reverse(),
        decreases k
    { let ghost b = dv(out@); k -= 1; out.push(copy_bytes(as_bytes(&s[k]))); proof { assert(dv(out@) =~= b.push(v[k as int])); assert(v.skip(k as int) =~= seq![v[k as int]] + v.skip(k + 1)); } }
    proof { assert(v.skip(0) =~= v); }
}
pub fn slice_vec<B>(s: &[B]) -> (r: Vec<Vec<u8>>) ensures dv(r@) =~= s@.map_values(|b: B| bytes_of(b))
{ let mut z = Vec::new(); push_slice(s, &mut z); let ghost a = z@; rev_vec(&mut z); proof { dv_rev(a); } z }
pub proof fn dv_rev(a: Seq<Vec<u8>>) ensures dv(a.reverse()) =~= dv(a).reverse() { }

impl<'b> CowLike<'b> {
//@ fn path/src/util/cow_like.rs Hash for CowLike::hash
//@ sig hash<H: Hasher>(&self, state: &mut H) ==> hash(&self, state: &mut HState)
//@ spec
    ensures final(state)@ == old(state)@.push(cow(*self))
//@ end
}
impl<'r> SubtreePathRelative<'r> {
//@ fn path/src/subtree_path_builder.rs Hash for SubtreePathRelative::hash
//@ sig hash<H: Hasher>(&self, state: &mut H) ==> hash(&self, state: &mut HState)
//@ spec
    requires rel_ok(*self)
    ensures final(state)@ =~= old(state)@ + rel_view(*self).reverse()
//@ end
}
impl<'b, B> SubtreePath<'b, B> {
//@ fn path/src/subtree_path.rs From<&'b [B]> for SubtreePath::from
//@ as from_slice
//@ ret r
//@ spec
    ensures pok(r), pv(r) == value@.map_values(|b: B| bytes_of(b))
//@ end
//@ fn path/src/subtree_path.rs From<&'s SubtreePathBuilder<'b, B>> for SubtreePath::from
//@ sig from(value: &'s SubtreePathBuilder<'b, B>) -> Self ==> from<'s>(value: &'s SubtreePathBuilder<'s, B>) -> SubtreePath<'s, B>
//@ ret r
//@ spec
    requires bok(*value)
    ensures pok(r), pv(r) == bv(*value)
//@ end
//@ fn path/src/subtree_path.rs PartialEq<SubtreePath<'br, BR>> for SubtreePath::eq
//@ sig eq(&self, ==> eq<'br, BR>(&self,
//@ ret r
//@ spec
    requires pok(*self), pok(*other)
    ensures r == (pv(*self) == pv(*other))
//@ end
//@ fn path/src/subtree_path_builder.rs PartialEq<SubtreePathBuilder<'br, BR>> for SubtreePath::eq
//@ as eq_builder
//@ sig (&self, ==> <'br, BR>(&self,
//@ ret r
//@ spec
    requires pok(*self), bok(*other)
    ensures r == (pv(*self) == bv(*other))
//@ end
//@ fn path/src/subtree_path.rs PartialOrd<SubtreePath<'br, BR>> for SubtreePath::partial_cmp
//@ sig (&self, ==> <'br, BR>(&self,
//@ sig cmp::Ordering ==> Ordering
//@ ret r
//@ spec
    requires pok(*self), pok(*other), pv(*self).len() <= usize::MAX, pv(*other).len() <= usize::MAX
    ensures r == Some(pathcmp(pv(*self), pv(*other)))
//@ end
//@ fn path/src/subtree_path.rs PartialOrd<SubtreePathBuilder<'br, BR>> for SubtreePath::partial_cmp
//@ as partial_cmp_builder
//@ sig (&self, ==> <'br, BR>(&self,
//@ sig cmp::Ordering ==> Ordering
//@ ret r
//@ spec
    requires pok(*self), bok(*other), pv(*self).len() <= usize::MAX, bv(*other).len() <= usize::MAX
    ensures r == Some(pathcmp(pv(*self), bv(*other)))
//@ end
//@ fn path/src/subtree_path.rs Ord for SubtreePath::cmp
//@ sig cmp::Ordering ==> Ordering
//@ ret r
//@ spec
    requires pok(*self), pok(*other), pv(*self).len() <= usize::MAX, pv(*other).len() <= usize::MAX
    ensures r == pathcmp(pv(*self), pv(*other))
//@ end
//@ fn path/src/subtree_path.rs Hash for SubtreePath::hash
//@ sig hash<H: Hasher>(&self, state: &mut H) ==> hash(&self, state: &mut HState)
//@ spec
    requires pok(*self)
    ensures final(state)@ =~= old(state)@ + pv(*self).reverse()
    decreases *self
//@ end
//@ fn path/src/subtree_path.rs SubtreePath::to_vec
//@ ret r
//@ spec
    requires pok(*self)
    ensures dv(r@) =~= pv(*self)
    decreases *self
//@ before rev_vec($x..);
    let ghost a = path@; proof { dv_rev(a); }
//@ end
}
impl<'b, B> SubtreePathBuilder<'b, B> {
//@ fn path/src/subtree_path_builder.rs PartialEq<SubtreePathBuilder<'br, BR>> for SubtreePathBuilder::eq
//@ sig eq(&self, ==> eq<'br, BR>(&self,
//@ ret r
//@ spec
    requires bok(*self), bok(*other)
    ensures r == (bv(*self) == bv(*other))
//@ end
//@ fn path/src/subtree_path_builder.rs PartialEq<SubtreePath<'br, BR>> for SubtreePathBuilder::eq
//@ as eq_path
//@ sig (&self, ==> <'br, BR>(&self,
//@ ret r
//@ spec
    requires bok(*self), pok(*other)
    ensures r == (bv(*self) == pv(*other))
//@ end
//@ fn path/src/subtree_path.rs PartialOrd<SubtreePathBuilder<'br, BR>> for SubtreePathBuilder::partial_cmp
//@ sig (&self, ==> <'br, BR>(&self,
//@ sig cmp::Ordering ==> Ordering
//@ ret r
//@ spec
    requires bok(*self), bok(*other), bv(*self).len() <= usize::MAX, bv(*other).len() <= usize::MAX
    ensures r == Some(pathcmp(bv(*self), bv(*other)))
//@ end
//@ fn path/src/subtree_path.rs Ord for SubtreePathBuilder::cmp
//@ sig cmp::Ordering ==> Ordering
//@ ret r
//@ spec
    requires bok(*self), bok(*other), bv(*self).len() <= usize::MAX, bv(*other).len() <= usize::MAX
    ensures r == pathcmp(bv(*self), bv(*other))
//@ end
//@ fn path/src/subtree_path_builder.rs Hash for SubtreePathBuilder::hash
//@ sig hash<H: Hasher>(&self, state: &mut H) ==> hash(&self, state: &mut HState)
//@ spec
    requires bok(*self)
    ensures final(state)@ =~= old(state)@ + bv(*self).reverse()
    decreases *self
//@ at end
    proof { let a = pv(self.base); let b = rel_view(self.relative); assert((a + b).reverse() =~= b.reverse() + a.reverse()); }
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::to_vec
//@ ret r
//@ spec
    requires bok(*self)
    ensures dv(r@) =~= bv(*self)
    decreases *self
//@ before rev_vec($x..);
    proof { dv_rev(result@); let a = pv(self.base); let b = rel_view(self.relative); assert((a + b).reverse() =~= b.reverse() + a.reverse()); assert(dv(result@) =~= b.reverse() + a.reverse()); assert((a + b).reverse().reverse() =~= a + b); }
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::new
//@ sig Self ==> SubtreePathBuilder<'static, [u8; 0]>
//@ ret r
//@ spec
    ensures bok(r), bv(r).len() == 0
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::owned_from_iter
//@ sig owned_from_iter<S: AsRef<[u8]>>(iter: impl IntoIterator<Item = S>) ==> owned_from_iter<S>(iter: Vec<S>)
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
    ensures bok(r), bv(r) =~= iter@.map_values(|b: S| bytes_of(b))
//@ loop 1
    invariant k <= iter@.len(), cb_ok(bytes), cb_view(bytes) =~= iter@.take(k as int).map_values(|b: S| bytes_of(b)),
    decreases iter@.len() - k
//@ loopend 1
    proof { assert(iter@.take(k as int) =~= iter@.take(k - 1).push(iter@[k - 1])); }
//@ postloop 1
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@ end
//@ fn path/src/subtree_path_builder.rs SubtreePathBuilder::owned_from_path
//@ sig owned_from_path<S: AsRef<[u8]>> ==> owned_from_path<S>
//@ ret r
//@ spec
    requires pok(path)
    ensures bok(r), bv(r) =~= pv(path)
//@ at start
    proof { axiom_vec_bytes(); }
//@ end
}
#[verifier::external_body] pub fn clone_cb(b: &CompactBytes) -> (r: CompactBytes) ensures r == *b { unimplemented!() }
} // verus!
fn main() {}
