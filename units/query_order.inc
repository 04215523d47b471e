// ---- the lexicographic order of keys -----------------------------------------
pub open spec fn klt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{ if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { klt(a.drop_first(), b.drop_first()) } }
pub open spec fn kle(a: Seq<u8>, b: Seq<u8>) -> bool { a == b || klt(a, b) }
pub proof fn klt_irr(a: Seq<u8>) ensures !klt(a, a) decreases a.len() { if a.len() > 0 { klt_irr(a.drop_first()); } }
pub proof fn klt_tot(a: Seq<u8>, b: Seq<u8>) ensures klt(a, b) || klt(b, a) || a == b decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        klt_tot(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    }
}
pub proof fn klt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires klt(a, b), klt(b, c) ensures klt(a, c) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { klt_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub proof fn order()
    ensures forall|a: Seq<u8>, b: Seq<u8>| #[trigger] klt(a, b) ==> !klt(b, a) && a != b,
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] klt(a, b) || klt(b, a) || a == b,
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] klt(a, b) && #[trigger] klt(b, c) ==> klt(a, c),
        forall|a: Seq<u8>| !#[trigger] klt(a, a),
{
    assert forall|a: Seq<u8>| !#[trigger] klt(a, a) by { klt_irr(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] klt(a, b) || klt(b, a) || a == b by { klt_tot(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] klt(a, b) && #[trigger] klt(b, c) implies klt(a, c) by { klt_trans(a, b, c); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] klt(a, b) implies !klt(b, a) && a != b by { klt_irr(a); if klt(b, a) { klt_trans(a, b, a); } }
}
// range ends: before everything, after everything, or just before / at / just after a key
pub enum Pt { Neg, At(Seq<u8>, int), Pos }
pub open spec fn plt(a: Pt, b: Pt) -> bool {
    match (a, b) {
        (Pt::Neg, Pt::Neg) => false, (Pt::Neg, _) => true, (_, Pt::Neg) => false, (Pt::Pos, _) => false, (_, Pt::Pos) => true,
        (Pt::At(k, o), Pt::At(l, q)) => klt(k, l) || (k == l && o < q),
    }
}
pub open spec fn ple(a: Pt, b: Pt) -> bool { a == b || plt(a, b) }
pub open spec fn pcmp(a: Pt, b: Pt) -> Ordering { if plt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub proof fn porder()
    ensures forall|a: Pt, b: Pt| #[trigger] plt(a, b) ==> !plt(b, a) && a != b,
        forall|a: Pt, b: Pt| #[trigger] plt(a, b) || plt(b, a) || a == b,
        forall|a: Pt, b: Pt, c: Pt| #[trigger] plt(a, b) && #[trigger] plt(b, c) ==> plt(a, c),
        forall|a: Pt| !#[trigger] plt(a, a),
{ order(); }
// std's comparison, equality and copying of byte vectors
#[verifier::external_body] pub fn cmp_bytes(a: &[u8], b: &[u8]) -> (r: Ordering)
    ensures r == (if klt(a@, b@) { Ordering::Less } else if a@ == b@ { Ordering::Equal } else { Ordering::Greater }) { a.cmp(b) }
#[verifier::external_body] pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn copy_bytes(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] pub fn slice_of<'a>(v: &'a Vec<u8>) -> (r: &'a [u8]) ensures r@ == v@ { v.as_slice() }
// derived and std Clone impls
#[verifier::external_body] pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
