// C17: reference paths. grovedb-element/src/reference_path/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct ElementError { x: u8 }
#[verifier::external_body] pub fn err() -> (r: ElementError) { unimplemented!() }
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
// std's AsRef<[u8]>
pub trait AsBytes { spec fn b(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b(); }
pub open spec fn bv<B: AsBytes>(s: Seq<B>) -> Seq<Seq<u8>> { s.map_values(|x: B| x.b()) }
#[verifier::external_body] pub fn copy_bytes(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] pub fn clone_bytes(s: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == s@ { s.clone() }
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r.is_none(), s@.len() > 0 ==> r.is_some() && *r.unwrap().0 == s@.last() && r.unwrap().1@ == s@.drop_last();
// path.iter().take(n).map(|x| x.as_ref().to_vec()).collect()
pub fn take_vec<B: AsBytes>(s: &[B], n: usize) -> (r: Vec<Vec<u8>>)
    ensures dv(r@) == bv(s@).take(if n <= s@.len() { n as int } else { s@.len() as int })
{
    let m = if n <= s.len() { n } else { s.len() };
    let mut v: Vec<Vec<u8>> = Vec::new(); let mut i: usize = 0;
    while i < m invariant i <= m <= s@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k])@ == s@[k].b() decreases m - i
    { v.push(copy_bytes(s[i].as_ref())); i += 1; }
    assert(dv(v@) =~= bv(s@).take(m as int));
    v
}
pub fn last_of<B: AsBytes>(s: &[B]) -> (r: Vec<u8>) requires s@.len() > 0 ensures r@ == bv(s@).last() { copy_bytes(s[s.len() - 1].as_ref()) }
pub fn append_all(v: &mut Vec<Vec<u8>>, o: Vec<Vec<u8>>) ensures dv(final(v)@) == dv(old(v)@) + dv(o@)
{ let mut o = o; let ghost a = v@; let ghost b = o@; v.append(&mut o); proof { assert(dv(v@) =~= dv(a) + dv(b)); } }
// grovedb_path::SubtreePath and SubtreePathBuilder, as their segments (what C15 establishes)
#[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct SubtreePath<B> { x: Vec<B> }
impl<B: AsBytes> View for SubtreePath<B> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl<B: AsBytes> SubtreePath<B> {
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<Vec<u8>>) ensures dv(r@) == self@ { unimplemented!() }
    // into_reverse_iter().next()
    #[verifier::external_body] pub fn last(&self) -> (r: Option<Vec<u8>>) ensures r is Some == (self@.len() > 0), r is Some ==> r.unwrap()@ == self@.last() { unimplemented!() }
    // into_reverse_iter().take(n), collected
    #[verifier::external_body] pub fn last_reversed(self, n: usize) -> (r: Vec<Vec<u8>>)
        ensures dv(r@) == self@.skip(if n <= self@.len() { self@.len() - n } else { 0 }).reverse() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct SubtreePathBuilder<'b, B> { x: &'b Vec<B> }
impl<'b, B: AsBytes> View for SubtreePathBuilder<'b, B> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
impl<'b, B: AsBytes> SubtreePathBuilder<'b, B> {
    #[verifier::external_body] pub fn owned_from_iter(p: Vec<Vec<u8>>) -> (r: Self) ensures r@ == dv(p@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn derive_parent_owned(&self) -> (r: Option<(SubtreePathBuilder<'b, B>, Vec<u8>)>)
        ensures r is Some == (self@.len() > 0), r is Some ==> r.unwrap().0@ == self@.drop_last() && r.unwrap().1@ == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn push_segment(&mut self, s: &[u8]) ensures final(self)@ == old(self)@.push(s@) { unimplemented!() }
    // reverse_iter().next()
    #[verifier::external_body] pub fn last(&self) -> (r: Option<Vec<u8>>) ensures r is Some == (self@.len() > 0), r is Some ==> r.unwrap()@ == self@.last() { unimplemented!() }
}
#[verifier::external_body] pub fn reverse_segments(v: &mut Vec<Vec<u8>>) ensures dv(final(v)@) == dv(old(v)@).reverse() { v.reverse() }
// .into_iter().skip(n).chain(once(k)).collect()
#[verifier::external_body] pub fn skip_then(v: Vec<Vec<u8>>, n: usize, k: Vec<u8>) -> (r: Vec<Vec<u8>>)
    ensures dv(r@) == dv(v@).skip(if n <= v@.len() { n as int } else { v@.len() as int }).push(k@) { unimplemented!() }
pub fn one_segment(k: Vec<u8>) -> (r: Vec<Vec<u8>>) ensures dv(r@) == seq![k@] { let mut v: Vec<Vec<u8>> = Vec::new(); v.push(k); assert(dv(v@) =~= seq![k@]); v }
pub fn push_bytes(v: &mut Vec<Vec<u8>>, k: Vec<u8>) ensures dv(final(v)@) == dv(old(v)@).push(k@) { let ghost a = v@; v.push(k); assert(dv(v@) =~= dv(a).push(k@)); }
pub fn pop_bytes(v: &mut Vec<Vec<u8>>) requires old(v)@.len() > 0 ensures dv(final(v)@) == dv(old(v)@).drop_last() { let ghost a = v@; v.pop(); assert(dv(v@) =~= dv(a).drop_last()); }
// ascend n times (a fold of derive_parent_owned)
pub fn ascend<'b, B: AsBytes>(p: SubtreePathBuilder<'b, B>, n: usize) -> (r: SubtreePathBuilder<'b, B>)
    requires n <= p@.len() ensures r@ == p@.take(p@.len() - n)
{
    let ghost g = p@; let mut p = p; let mut i: usize = 0;
    assert(g.take(g.len() as int) =~= g);
    while i < n invariant i <= n <= g.len(), p@ == g.take(g.len() - i) decreases n - i
    { p = p.derive_parent_owned().unwrap().0; i += 1; assert(p@ =~= g.take(g.len() - i)); }
    p
}
// push each segment (a fold of push_segment)
pub fn extend_by<'b, B: AsBytes>(p: SubtreePathBuilder<'b, B>, s: Vec<Vec<u8>>) -> (r: SubtreePathBuilder<'b, B>) ensures r@ == p@ + dv(s@)
{
    let ghost g = p@; let mut p = p; let mut i: usize = 0;
    assert(g + dv(s@).take(0) =~= g);
    while i < s.len() invariant i <= s@.len(), p@ == g + dv(s@).take(i as int) decreases s@.len() - i
    { p.push_segment(s[i].as_slice()); i += 1; assert(p@ =~= g + dv(s@).take(i as int)); }
    assert(dv(s@).take(s@.len() as int) =~= dv(s@));
    p
}
//@ rules
ElementError::$v($x..) ==> err()
current_path_iter.take($n..).map(|x| x.as_ref().to_vec()).collect::<Vec<_>>() ==> take_vec(current_path_iter, $n)
current_path.iter().map(|p| p.as_ref().to_vec()).collect::<Vec<Vec<u8>>>() ==> take_vec(current_path, current_path.len())
current_path.iter() ==> current_path
current_path.last().unwrap().as_ref().to_vec() ==> last_of(current_path)
usize::from($x) ==> ($x as usize)
$v.append(&mut $p); ==> append_all(&mut $v, $p);
current_path_as_vec.pop(); ==> pop_bytes(&mut current_path_as_vec);
current_path_as_vec.push($x..); ==> push_bytes(&mut current_path_as_vec, $x);
subpath_as_vec.push($x..); ==> push_bytes(&mut subpath_as_vec, $x);
k.to_vec() ==> copy_bytes(k)
key.to_vec() ==> copy_bytes(key)
//@ end

//@ type grovedb-element/src/reference_path/mod.rs ReferencePathType

// ---- what each kind of reference means --------------------------------------------
pub open spec fn resolve(r: ReferencePathType, path: Seq<Seq<u8>>, key: Option<Seq<u8>>) -> Option<Seq<Seq<u8>>> {
    match r {
        ReferencePathType::AbsolutePathReference(p) => Some(dv(p@)),
        // the first n segments of the path, then the given ones
        ReferencePathType::UpstreamRootHeightReference(n, p) => if n <= path.len() { Some(path.take(n as int) + dv(p@)) } else { None },
        // ..., then the parent's own segment
        ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, p) => if n <= path.len() && path.len() > 0 { Some((path.take(n as int) + dv(p@)).push(path.last())) } else { None },
        // all but the last n segments, then the given ones
        ReferencePathType::UpstreamFromElementHeightReference(n, p) => if n <= path.len() { Some(path.take(path.len() - n) + dv(p@)) } else { None },
        // the parent's segment swapped, the key kept
        ReferencePathType::CousinReference(c) => if path.len() > 0 && key is Some { Some(path.drop_last().push(c@).push(key.unwrap())) } else { None },
        // the parent's segment swapped for several, the key kept
        ReferencePathType::RemovedCousinReference(p) => if path.len() > 0 && key is Some { Some((path.drop_last() + dv(p@)).push(key.unwrap())) } else { None },
        // the key swapped
        ReferencePathType::SiblingReference(k) => Some(path.push(k@)),
    }
}
pub open spec fn ok(r: Result<Vec<Vec<u8>>, ElementError>, want: Option<Seq<Seq<u8>>>) -> bool { r is Ok == want is Some && (r is Ok ==> dv(r.unwrap()@) == want.unwrap()) }

//@ fn grovedb-element/src/reference_path/mod.rs path_from_reference_path_type
//@ sig <B: AsRef<[u8]>> ==> <B: AsBytes>
//@ ret r
//@ spec
  ensures ok(r, resolve(reference_path_type, bv(current_path@), match current_key { Some(k) => Some(k@), None => None }))
//@ at start
  proof { let p = bv(current_path@); assert(p.take(p.len() as int) =~= p); }
//@ end
//@ fn grovedb-element/src/reference_path/mod.rs path_from_reference_qualified_path_type
//@ sig <B: AsRef<[u8]>> ==> <B: AsBytes>
//@ ret r
//@ spec
  ensures current_qualified_path@.len() == 0 ==> r is Err,
    current_qualified_path@.len() > 0 ==> ({ let q = bv(current_qualified_path@); ok(r, resolve(reference_path_type, q.drop_last(), Some(q.last()))) })
//@ at start
  proof { let q = current_qualified_path@; if q.len() > 0 { assert(bv(q.drop_last()) =~= bv(q).drop_last()); } }
//@ end
impl ReferencePathType {
//@ fn grovedb-element/src/reference_path/mod.rs ReferencePathType::absolute_path_using_current_qualified_path
//@ sig <B: AsRef<[u8]>> ==> <B: AsBytes>
//@ ret r
//@ spec
  ensures current_qualified_path@.len() == 0 ==> r is Err,
    current_qualified_path@.len() > 0 ==> ({ let q = bv(current_qualified_path@); ok(r, resolve(self, q.drop_last(), Some(q.last()))) })
//@ end
//@ fn grovedb-element/src/reference_path/mod.rs ReferencePathType::absolute_path
//@ sig <B: AsRef<[u8]>> ==> <B: AsBytes>
//@ ret r
//@ spec
  ensures ok(r, resolve(self, bv(current_path@), match current_key { Some(k) => Some(k@), None => None }))
//@ end
//@ fn grovedb-element/src/reference_path/mod.rs ReferencePathType::absolute_qualified_path
//@ attr #[verifier::loop_isolation(false)]
//@ sig B: AsRef<[u8]>> ==> B: AsBytes>
//@ rule (0..n_to_remove).fold(current_path, |p, _| { p.derive_parent_owned().expect($m).0 }) ==> ascend(current_path, n_to_remove)
//@ rule append_path.into_iter().fold($p, |mut p, s| { p.push_segment(&s); p }) ==> extend_by($p, append_path)
//@ rule cousin_path.into_iter().for_each(|s| referred_path.push_segment(&s)); ==> referred_path = extend_by(referred_path, cousin_path);
//@ rule current_path.reverse_iter().next().expect($m).to_vec() ==> current_path.last().unwrap()
//@ rule for _ in 0..$n { $b.. } ==> let mut d: u8 = 0; while d < $n { d += 1; $b }
//@ rule push_segment(&$x) ==> push_segment($x.as_slice())
//@ ret r
//@ spec
  ensures ({ let want = resolve(self, current_path@, Some(current_key@)); r is Ok == want is Some && (r is Ok ==> r.unwrap()@ == want.unwrap()) })
//@ at start
  let ghost g = current_path@;
  proof { assert(g.take(g.len() as int) =~= g); }
//@ loop 1
  invariant d <= no_of_elements_to_discard_from_end, d <= g.len(), referenced_path@ == g.take(g.len() - d),
  decreases no_of_elements_to_discard_from_end - d
//@ loopend 1
  proof { assert(referenced_path@ =~= g.take(g.len() - d)); }
//@ end
//@ fn grovedb-element/src/reference_path/mod.rs ReferencePathType::invert
//@ sig <B: AsRef<[u8]>> ==> <B: AsBytes>
//@ rulefirst path.to_vec().into_iter().skip(*n as usize).chain(iter::once(key.to_vec())).collect() ==> skip_then(path.to_vec(), *n as usize, copy_bytes(key))
//@ rulefirst path.into_reverse_iter().take(*n as usize).map(|x| x.to_vec()).collect() ==> path.last_reversed(*n as usize)
//@ rulefirst path.into_reverse_iter().next().map(|x| x.to_vec())? ==> (match path.last() { Some(l) => l, None => { return None; } })
//@ rulefirst vec![$x..] ==> one_segment($x)
//@ rule relative_path.reverse(); ==> reverse_segments(&mut relative_path);
//@ rule relative_path.push($x..); ==> push_bytes(&mut relative_path, $x);
//@ rule qualified_path.push($x..); ==> push_bytes(&mut qualified_path, $x);
//@ rule Vec<_> ==> Vec<Vec<u8>>
//@ ret r
//@ spec
  // the inverse, resolved from where this reference leads, gives back where it is
  ensures r is Some ==> back(*self, r.unwrap(), path@, key@),
    // and one is given unless the reference names an ancestor, the path is empty, or too many segments are appended
    r is None ==> match *self { ReferencePathType::UpstreamRootHeightReference(_, p) => p@.len() == 0, ReferencePathType::UpstreamFromElementHeightReference(_, p) => p@.len() == 0 || p@.len() > 255,
        ReferencePathType::CousinReference(_) => path@.len() == 0, ReferencePathType::RemovedCousinReference(p) => path@.len() == 0 || p@.len() > 255, _ => false },
//@ rulefirst Some(match self { $b.. }) ==> let inv = match self { $b }; proof { lemma_rev(path@); assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] seq![a].push(b) =~= seq![a, b] by { } assert(inverse(*self, inv, path@, key@)); lemma_back(*self, inv, path@, key@); } Some(inv)
//@ end
}
pub proof fn lemma_rev(p: Seq<Seq<u8>>) ensures forall|n: int| 0 <= n <= p.len() ==> #[trigger] p.skip(n).reverse().reverse() == p.skip(n), p.skip(0) == p
{ assert forall|n: int| 0 <= n <= p.len() implies #[trigger] p.skip(n).reverse().reverse() == p.skip(n) by { assert(p.skip(n).reverse().reverse() =~= p.skip(n)); } assert(p.skip(0) =~= p); }
// every inverse the code may give leads back
pub open spec fn back(s: ReferencePathType, inv: ReferencePathType, path: Seq<Seq<u8>>, key: Seq<u8>) -> bool
{ let there = resolve(s, path, Some(key)); there is Some && there.unwrap().len() > 0 ==> resolve(inv, there.unwrap().drop_last(), Some(there.unwrap().last())) == Some(path.push(key)) }
pub open spec fn inverse(s: ReferencePathType, i: ReferencePathType, path: Seq<Seq<u8>>, key: Seq<u8>) -> bool {
    match s {
        ReferencePathType::AbsolutePathReference(_) => i is AbsolutePathReference && dv(i->AbsolutePathReference_0@) == path.push(key),
        ReferencePathType::UpstreamRootHeightReference(n, p) => p@.len() > 0 && i is UpstreamRootHeightReference && i->UpstreamRootHeightReference_0 == n && (n <= path.len() ==> dv(i->UpstreamRootHeightReference_1@) == path.skip(n as int).push(key)),
        ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, p) => i is UpstreamRootHeightReference && i->UpstreamRootHeightReference_0 == n && (n <= path.len() ==> dv(i->UpstreamRootHeightReference_1@) == path.skip(n as int).push(key)),
        ReferencePathType::UpstreamFromElementHeightReference(n, p) => p@.len() > 0 && i is UpstreamFromElementHeightReference && i->UpstreamFromElementHeightReference_0 == p@.len() - 1 && (n <= path.len() ==> dv(i->UpstreamFromElementHeightReference_1@) == path.skip(path.len() - n).push(key)),
        ReferencePathType::CousinReference(_) => path.len() > 0 && i is CousinReference && i->CousinReference_0@ == path.last(),
        ReferencePathType::RemovedCousinReference(p) => path.len() > 0 && i is UpstreamFromElementHeightReference && i->UpstreamFromElementHeightReference_0 == p@.len() && dv(i->UpstreamFromElementHeightReference_1@) == seq![path.last(), key],
        ReferencePathType::SiblingReference(_) => i is SiblingReference && i->SiblingReference_0@ == key,
    }
}
pub proof fn lemma_back(s: ReferencePathType, i: ReferencePathType, path: Seq<Seq<u8>>, key: Seq<u8>)
    requires inverse(s, i, path, key) ensures back(s, i, path, key)
{
    let t = resolve(s, path, Some(key));
    if t is Some && t.unwrap().len() > 0 {
        let t = t.unwrap(); let from = t.drop_last(); let goal = path.push(key);
        match s {
            ReferencePathType::AbsolutePathReference(_) => { }
            ReferencePathType::UpstreamRootHeightReference(n, p) => { assert(from.take(n as int) =~= path.take(n as int)); assert(path.take(n as int) + path.skip(n as int).push(key) =~= goal); }
            ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, p) => { assert(from.take(n as int) =~= path.take(n as int)); assert(path.take(n as int) + path.skip(n as int).push(key) =~= goal); }
            ReferencePathType::UpstreamFromElementHeightReference(n, p) => { assert(from.take(path.len() - n) =~= path.take(path.len() - n)); assert(path.take(path.len() - n) + path.skip(path.len() - n).push(key) =~= goal); }
            ReferencePathType::CousinReference(_) => { assert(from.drop_last().push(path.last()).push(key) =~= goal); }
            ReferencePathType::RemovedCousinReference(p) => { assert(from.take(path.len() - 1) =~= path.drop_last()); assert(path.drop_last() + seq![path.last(), key] =~= goal); }
            ReferencePathType::SiblingReference(_) => { assert(from =~= path); }
        }
    }
}
// ---- a reference stored in an element, made absolute ---------------------------------
pub type ElementFlags = Vec<u8>;
pub type MaxReferenceHop = Option<u8>;
pub type SumValue = i64;
pub type BigSumValue = i128;
pub type CountValue = u64;
//@ type grovedb-element/src/element/mod.rs Element
#[verifier::external_body] pub fn same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
impl<'a> AsBytes for &'a [u8] { open spec fn b(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
pub open spec fn abs(e: Element, r: Element, path: Seq<Seq<u8>>, key: Option<Seq<u8>>) -> bool {
    match (e, r) {
        (Element::Reference(q, hop, f), Element::Reference(ReferencePathType::AbsolutePathReference(a), hop2, f2)) => hop2 == hop && f2 == f && resolve(q, path, key) == Some(dv(a@)),
        _ => r == e && !(e is Reference),
    }
}
impl Element {
//@ fn grovedb-element/src/element/helpers.rs Element::convert_if_reference_to_absolute_reference
//@ rulefirst .clone() ==> .same_()
//@ rule reference_path_type.same_() ==> same(reference_path_type)
//@ rule flags.same_() ==> same(flags)
//@ ret r
//@ spec
  ensures match r { Ok(x) => abs(self, x, bv(path@), match key { Some(k) => Some(k@), None => None }),
    Err(_) => self is Reference && resolve(self->Reference_0, bv(path@), match key { Some(k) => Some(k@), None => None }) is None }
//@ end
}
} // verus!
fn main() {}
