pub struct KRange { pub start: Vec<u8>, pub end: Vec<u8> }
pub struct KFrom { pub start: Vec<u8> }
pub struct KTo { pub end: Vec<u8> }
pub struct KInc { pub s: Vec<u8>, pub e: Vec<u8> }
impl KInc {
    pub fn start(&self) -> (r: &Vec<u8>) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &Vec<u8>) ensures *r == self.e { &self.e }
}
//@ type grovedb-query/src/query_item/mod.rs QueryItem
pub struct Query { pub items: Vec<QueryItem>, pub sub: bool }
impl Query { #[verifier::external_body] pub fn has_subquery(&self) -> (r: bool) ensures r == self.sub { unimplemented!() } }
//@ type grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs DenseTreeProof
// -- what a proof hashes to
pub open spec fn rec(pos: int, cap: int, count: int, em: spec_fn(u16) -> Option<Seq<u8>>, vm: spec_fn(u16) -> Option<H>, hm: spec_fn(u16) -> Option<H>) -> Option<H> decreases cap - pos {
    if pos < 0 || pos >= cap || pos >= count { Some(zero()) }
    else if hm(pos as u16).is_some() { hm(pos as u16) }
    else if !em(pos as u16).is_some() && !vm(pos as u16).is_some() { None }
    else {
        let v = if em(pos as u16).is_some() { vh(em(pos as u16)->0) } else { vm(pos as u16)->0 };
        let l = if 2 * pos + 1 < cap { rec(2 * pos + 1, cap, count, em, vm, hm) } else { Some(zero()) };
        let r = if 2 * pos + 2 < cap { rec(2 * pos + 2, cap, count, em, vm, hm) } else { Some(zero()) };
        if l.is_none() || r.is_none() { None } else { Some(nh(v, l->0, r->0)) }
    }
}
pub open spec fn prec(p: DenseTreeProof, pos: int, h: u8, count: u16) -> Option<H> { rec(pos, capacity(h), count as int, emap(p.entries@), hmap(p.node_value_hashes@), hmap(p.node_hashes@)) }
// q is p or an ancestor of p
pub open spec fn anc(q: int, p: int) -> bool decreases p { p == q || (p > 0 && anc(q, (p - 1) / 2)) }
pub open spec fn disjoint<A, B>(a: Seq<(u16, A)>, b: Seq<(u16, B)>) -> bool { forall|p: u16| !(#[trigger] has_pos(a, p) && has_pos(b, p)) }
pub open spec fn ranged(s: Seq<(u16, Vec<u8>)>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < n }
// no subtree hash stands at or above a proved entry
pub open spec fn no_cover(p: DenseTreeProof) -> bool { forall|a: u16, e: u16| #[trigger] has_pos(p.node_hashes@, a) && #[trigger] has_pos(p.entries@, e) ==> !anc(a as int, e as int) }
pub open spec fn shaped(p: DenseTreeProof, h: u8, count: u16) -> bool {
    &&& 1 <= h <= 16 && count <= capacity(h) && ranged(p.entries@, count as int)
    &&& p.entries@.len() <= capacity(h) && p.node_value_hashes@.len() <= capacity(h) && p.node_hashes@.len() <= capacity(h)
    &&& distinct(p.entries@) && distinct(p.node_value_hashes@) && distinct(p.node_hashes@)
    &&& disjoint(p.entries@, p.node_value_hashes@) && disjoint(p.entries@, p.node_hashes@) && disjoint(p.node_value_hashes@, p.node_hashes@)
    &&& no_cover(p)
}
pub open spec fn accepts(p: DenseTreeProof, h: u8, count: u16) -> bool { shaped(p, h, count) && prec(p, 0, h, count).is_some() }

// -- position queries
pub open spec fn num(b: Seq<u8>) -> Option<int> { if b.len() == 1 { Some(b[0] as int) } else if b.len() == 2 { Some(b[0] * 256 + b[1]) } else { None } }
pub open spec fn wf_item(i: QueryItem) -> bool {
    match i {
        QueryItem::Key(k) => num(k@).is_some(),
        QueryItem::Range(r) => num(r.start@).is_some() && num(r.end@).is_some(),
        QueryItem::RangeInclusive(r) => num(r.s@).is_some() && num(r.e@).is_some(),
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => num(r.start@).is_some(),
        QueryItem::RangeTo(r) => num(r.end@).is_some(),
        QueryItem::RangeToInclusive(r) => num(r.end@).is_some(),
        QueryItem::RangeAfter(r) => num(r.start@).is_some(),
        QueryItem::RangeAfterTo(r) => num(r.start@).is_some() && num(r.end@).is_some(),
        QueryItem::RangeAfterToInclusive(r) => num(r.s@).is_some() && num(r.e@).is_some(),
    }
}
pub open spec fn sel(i: QueryItem, p: int) -> bool {
    match i {
        QueryItem::Key(k) => num(k@) == Some(p),
        QueryItem::Range(r) => num(r.start@)->0 <= p < num(r.end@)->0,
        QueryItem::RangeInclusive(r) => num(r.s@)->0 <= p <= num(r.e@)->0,
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => num(r.start@)->0 <= p,
        QueryItem::RangeTo(r) => p < num(r.end@)->0,
        QueryItem::RangeToInclusive(r) => p <= num(r.end@)->0,
        QueryItem::RangeAfter(r) => num(r.start@)->0 < p,
        QueryItem::RangeAfterTo(r) => num(r.start@)->0 < p < num(r.end@)->0,
        QueryItem::RangeAfterToInclusive(r) => num(r.s@)->0 < p <= num(r.e@)->0,
    }
}
pub open spec fn selected(items: Seq<QueryItem>, n: int, p: int) -> bool decreases n { n > 0 && (selected(items, n - 1, p) || sel(items[n - 1], p)) }
pub open spec fn wf_items(items: Seq<QueryItem>, n: int) -> bool { forall|k: int| 0 <= k < n ==> wf_item(#[trigger] items[k]) }
pub open spec fn wanted(q: Query, count: u16, p: u16) -> bool { p < count && selected(q.items@, q.items@.len() as int, p as int) }

// ---- soundness (C05) ------------------------------------------------------------
// if the proof hashes to the true root, every entry reached without a subtree hash above it is true
proof fn sound_at(p: DenseTreeProof, vals: Seq<Seq<u8>>, h: u8, q: int, e: u16)
    requires shaped(p, h, vals.len() as u16), vals.len() <= 65535, has_pos(p.entries@, e), anc(q, e as int), 0 <= q,
        prec(p, q, h, vals.len() as u16) == Some(th(vals, capacity(h), q)),
    ensures vals[e as int] == emap(p.entries@)(e)->0, e < vals.len()
    decreases capacity(h) - q
{
    let cap = capacity(h); let n = vals.len() as int;
    let em = emap(p.entries@); let vm = hmap(p.node_value_hashes@); let hm = hmap(p.node_hashes@);
    let i = idx(p.entries@, e); assert(at_pos(p.entries@, i, e)); assert(p.entries@[i].0 == e);
    assert(e < n);
    lemma_anc_le(q, e as int);
    assert(!hm(q as u16).is_some());
    let v = if em(q as u16).is_some() { vh(em(q as u16)->0) } else { vm(q as u16)->0 };
    let l = if 2 * q + 1 < cap { rec(2 * q + 1, cap, n, em, vm, hm) } else { Some(zero()) };
    let r = if 2 * q + 2 < cap { rec(2 * q + 2, cap, n, em, vm, hm) } else { Some(zero()) };
    let tl = if 2 * q + 1 < cap { th(vals, cap, 2 * q + 1) } else { zero() };
    let tr = if 2 * q + 2 < cap { th(vals, cap, 2 * q + 2) } else { zero() };
    assert(prec(p, q, h, n as u16) == rec(q, cap, n, em, vm, hm));
    axiom_nh(v, l->0, r->0, vh(vals[q]), tl, tr);
    if q == e { axiom_vh(em(e)->0, vals[q]); }
    else { lemma_anc_child(q, e as int);
        if anc(2 * q + 1, e as int) { lemma_anc_le(2 * q + 1, e as int); sound_at(p, vals, h, 2 * q + 1, e); } else { lemma_anc_le(2 * q + 2, e as int); sound_at(p, vals, h, 2 * q + 2, e); } }
}
proof fn lemma_anc_le(q: int, p: int) requires anc(q, p), p >= 0 ensures q <= p decreases p { if p != q { lemma_anc_le(q, (p - 1) / 2); } }
proof fn lemma_anc_child(q: int, p: int) requires anc(q, p), p != q, 0 <= q, p >= 0 ensures anc(2 * q + 1, p) || anc(2 * q + 2, p) decreases p
{ let m = (p - 1) / 2; if m == q { assert(p == 2 * q + 1 || p == 2 * q + 2); } else { lemma_anc_child(q, m); } }
proof fn lemma_anc_root(p: int) requires p >= 0 ensures anc(0, p) decreases p { if p > 0 { lemma_anc_root((p - 1) / 2); } }
pub open spec fn has_to<T>(s: Seq<(u16, T)>, n: int, p: u16) -> bool { exists|j: int| j < n && at_pos(s, j, p) }
proof fn lemma_to<T>(s: Seq<(u16, T)>, n: int) requires 0 <= n < s.len() ensures forall|p: u16| #[trigger] has_to(s, n + 1, p) <==> has_to(s, n, p) || s[n].0 == p
{ assert forall|p: u16| #[trigger] has_to(s, n + 1, p) <==> has_to(s, n, p) || s[n].0 == p by {
    if has_to(s, n + 1, p) { let j = choose|j: int| j < n + 1 && at_pos(s, j, p); if j < n { assert(at_pos(s, j, p)); } }
    if has_to(s, n, p) { let j = choose|j: int| j < n && at_pos(s, j, p); assert(at_pos(s, j, p)); }
    if s[n].0 == p { assert(at_pos(s, n, p)); } } }
pub open spec fn anc_to(l: Seq<u16>, n: int, q: int) -> bool decreases n { n > 0 && (anc_to(l, n - 1, q) || anc(q, l[n - 1] as int)) }
proof fn lemma_anc_to(l: Seq<u16>, n: int, q: int) requires 0 <= n <= l.len() ensures anc_to(l, n, q) <==> exists|k: int| 0 <= k < n && anc(q, #[trigger] l[k] as int) decreases n
{ if n > 0 { lemma_anc_to(l, n - 1, q); if anc_to(l, n - 1, q) { let k = choose|k: int| 0 <= k < n - 1 && anc(q, #[trigger] l[k] as int); assert(anc(q, l[k] as int)); } else if anc(q, l[n - 1] as int) { assert(anc(q, l[n - 1] as int)); } } }
proof fn lemma_anc_trans(a: int, b: int, c: int) requires 0 <= a, 0 <= b, 0 <= c, anc(b, c), b > 0 && a == (b - 1) / 2 ensures anc(a, c) decreases c
{ if b != c { lemma_anc_trans(a, b, (c - 1) / 2); } else { assert(anc(a, (c - 1) / 2)); } }
// C05: a proof accepted against the root of a tree holding `vals` proves only true entries
pub proof fn theorem_sound(p: DenseTreeProof, vals: Seq<Seq<u8>>, h: u8)
    requires vals.len() <= capacity(h), accepts(p, h, vals.len() as u16), prec(p, 0, h, vals.len() as u16) == Some(th(vals, capacity(h), 0))
    ensures forall|i: int| 0 <= i < p.entries@.len() ==> (#[trigger] p.entries@[i]).0 < vals.len() && p.entries@[i].1@ == vals[p.entries@[i].0 as int]
{
    lemma_p2(h as nat, 16);
    assert forall|i: int| 0 <= i < p.entries@.len() implies (#[trigger] p.entries@[i]).0 < vals.len() && p.entries@[i].1@ == vals[p.entries@[i].0 as int] by {
        let e = p.entries@[i].0; assert(at_pos(p.entries@, i, e)); lemma_anc_root(e as int);
        sound_at(p, vals, h, 0, e);
        let j = idx(p.entries@, e); assert(at_pos(p.entries@, j, e)); assert(j == i);
    }
}
// ---- the code under contract: verification ------------------------------------------
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs bytes_to_position
//@ ret r
//@ spec
    ensures r.is_ok() == num(bytes@).is_some(), r.is_ok() ==> r->Ok_0 == num(bytes@)->0
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs query_to_positions
//@ ret r
//@ spec
    ensures r.is_ok() == (!query.sub && wf_items(query.items@, query.items@.len() as int)),
        r.is_ok() ==> asc(r->Ok_0@) && forall|p: u16| #[trigger] r->Ok_0@.contains(p) <==> wanted(*query, count, p)
//@ loop 1
invariant i <= query.items@.len(), !query.sub, wf_items(query.items@, i as int),
    forall|p: u16| #[trigger] positions@.contains(p) <==> p < count && selected(query.items@, i as int, p as int),
decreases query.items@.len() - i
//@ loopstart 1
let ghost b = positions@;
//@ loop 2
invariant start <= p, p <= end || p <= start, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start <= q && q < p)
decreases end - p
//@ postloop 2
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 3
invariant start <= p, p <= clamped_end || p <= start, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start <= q && q < p)
decreases clamped_end - p
//@ postloop 3
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 4
invariant 0 <= p, p <= count || p <= 0, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (0 <= q && q < p)
decreases count - p
//@ postloop 4
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 5
invariant start <= p, p <= count || p <= start, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start <= q && q < p)
decreases count - p
//@ postloop 5
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 6
invariant 0 <= p, p <= end || p <= 0, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (0 <= q && q < p)
decreases end - p
//@ postloop 6
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 7
invariant 0 <= p, p <= clamped_end || p <= 0, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (0 <= q && q < p)
decreases clamped_end - p
//@ postloop 7
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 8
invariant start < p || p == 65535, p <= count || p <= start + 1, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start < q && q < p)
decreases count - p
//@ postloop 8
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 9
invariant start < p || p == 65535, p <= end || p <= start + 1, forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start < q && q < p)
decreases end - p
//@ postloop 9
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ loop 10
invariant more ==> p <= clamped_end && start < p, !more ==> p >= clamped_end, more || p == clamped_end || p <= start + 1, start < p || start == 65535,
    forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (start < q && (q < p || (!more && q <= clamped_end)))
decreases clamped_end - p + (if more { 1int } else { 0 })
//@ postloop 10
proof { assert(forall|q: u16| #[trigger] positions@.contains(q) <==> b.contains(q) || (q < count && sel(*item, q as int))); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/verify.rs recompute_hash
//@ ret r
//@ spec
    requires capacity <= 65535
    ensures r.is_ok() == rec(position as int, capacity as int, count as int, entry_map@, value_hash_map@, hash_map@).is_some(),
        r.is_ok() ==> r->Ok_0 == rec(position as int, capacity as int, count as int, entry_map@, value_hash_map@, hash_map@)->0
    decreases capacity - position
//@ end
impl DenseTreeProof {
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/verify.rs DenseTreeProof::verify_inner
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::rlimit(60)]
//@ spec
    ensures r.is_ok() == accepts(*self, height, count),
        r.is_ok() ==> r->Ok_0.0 == prec(*self, 0, height, count)->0 && r->Ok_0.1 == collected::<C>(self.entries@)
//@ at start
proof { if 1 <= height <= 16 { lemma_p2(height as nat, 16); lemma_p2(1, height as nat); } }
//@ loop 1
invariant i <= self.entries@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self.entries@[j]).0 < count
decreases self.entries@.len() - i
//@ loop 2
invariant i <= self.entries@.len(), forall|a: int, b: int| 0 <= a < b < i ==> self.entries@[a].0 != self.entries@[b].0,
    forall|p: u16| #[trigger] seen@.contains(p) <==> has_to(self.entries@, i as int, p)
decreases self.entries@.len() - i
//@ loopstart 2
let ghost i0 = i as int; proof { assert(at_pos(self.entries@, i0, self.entries@[i0].0)); lemma_to(self.entries@, i0); }
//@ loopend 2
proof { assert forall|a: int| 0 <= a < i0 implies self.entries@[a].0 != self.entries@[i0].0 by { if self.entries@[a].0 == self.entries@[i0].0 { assert(at_pos(self.entries@, a, self.entries@[i0].0)); assert(has_to(self.entries@, i0, self.entries@[i0].0)); } } }
//@ loop 3
invariant i <= self.node_value_hashes@.len(), forall|a: int, b: int| 0 <= a < b < i ==> self.node_value_hashes@[a].0 != self.node_value_hashes@[b].0,
    forall|p: u16| #[trigger] seen@.contains(p) <==> has_to(self.node_value_hashes@, i as int, p)
decreases self.node_value_hashes@.len() - i
//@ loopstart 3
let ghost i0 = i as int; proof { assert(at_pos(self.node_value_hashes@, i0, self.node_value_hashes@[i0].0)); lemma_to(self.node_value_hashes@, i0); }
//@ loopend 3
proof { assert forall|a: int| 0 <= a < i0 implies self.node_value_hashes@[a].0 != self.node_value_hashes@[i0].0 by { if self.node_value_hashes@[a].0 == self.node_value_hashes@[i0].0 { assert(at_pos(self.node_value_hashes@, a, self.node_value_hashes@[i0].0)); assert(has_to(self.node_value_hashes@, i0, self.node_value_hashes@[i0].0)); } } }
//@ loop 4
invariant i <= self.node_hashes@.len(), forall|a: int, b: int| 0 <= a < b < i ==> self.node_hashes@[a].0 != self.node_hashes@[b].0,
    forall|p: u16| #[trigger] seen@.contains(p) <==> has_to(self.node_hashes@, i as int, p)
decreases self.node_hashes@.len() - i
//@ loopstart 4
let ghost i0 = i as int; proof { assert(at_pos(self.node_hashes@, i0, self.node_hashes@[i0].0)); lemma_to(self.node_hashes@, i0); }
//@ loopend 4
proof { assert forall|a: int| 0 <= a < i0 implies self.node_hashes@[a].0 != self.node_hashes@[i0].0 by { if self.node_hashes@[a].0 == self.node_hashes@[i0].0 { assert(at_pos(self.node_hashes@, a, self.node_hashes@[i0].0)); assert(has_to(self.node_hashes@, i0, self.node_hashes@[i0].0)); } } }
//@ loop 5
invariant i <= list@.len(),
    forall|q: u16| #[trigger] ancestor_set@.contains(q) <==> entry_positions@.contains(q) || anc_to(list@, i as int, q as int)
decreases list@.len() - i
//@ loopstart 5
let ghost base = ancestor_set@; let ghost e = list@[i as int]; proof { assert(list@.contains(e)); assert(entry_positions@.contains(e)); assert(base.contains(e)); }
//@ loop 6
invariant anc(p as int, e as int), forall|q: u16| #[trigger] ancestor_set@.contains(q) <==> base.contains(q) || (anc(q as int, e as int) && (q == p || !anc(q as int, p as int)))
decreases p
//@ loopstart 6
let ghost p0 = p as int;
//@ loopend 6
proof { lemma_anc_trans(p as int, p0, e as int);
  assert forall|q: u16| #[trigger] ancestor_set@.contains(q) <==> base.contains(q) || (anc(q as int, e as int) && (q == p || !anc(q as int, p as int))) by {
    if anc(p0, p as int) { lemma_anc_le(p0, p as int); } } }
//@ postloop 5
proof {
  assert forall|q: u16| #[trigger] ancestor_set@.contains(q) <==> exists|e: u16| #[trigger] has_pos(self.entries@, e) && anc(q as int, e as int) by {
    lemma_anc_to(list@, list@.len() as int, q as int);
    if ancestor_set@.contains(q) {
      if entry_positions@.contains(q) { assert(has_pos(self.entries@, q) && anc(q as int, q as int)); }
      else { let k = choose|k: int| 0 <= k < list@.len() && anc(q as int, #[trigger] list@[k] as int); assert(list@.contains(list@[k])); assert(has_pos(self.entries@, list@[k])); }
    }
    if exists|e: u16| #[trigger] has_pos(self.entries@, e) && anc(q as int, e as int) {
      let e = choose|e: u16| #[trigger] has_pos(self.entries@, e) && anc(q as int, e as int);
      assert(entry_positions@.contains(e)); assert(list@.contains(e)); let k = choose|k: int| 0 <= k < list@.len() && list@[k] == e; assert(anc(q as int, list@[k] as int));
    }
  }
}
//@ loop 7
invariant i <= self.node_hashes@.len(), forall|j: int| 0 <= j < i ==> !ancestor_set@.contains((#[trigger] self.node_hashes@[j]).0)
decreases self.node_hashes@.len() - i
//@ loopstart 7
proof { assert(at_pos(self.node_hashes@, i as int, self.node_hashes@[i as int].0)); assert(has_pos(self.node_hashes@, self.node_hashes@[i as int].0)); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/verify.rs DenseTreeProof::verify_and_get_root
//@ ret r
//@ spec
    ensures r.is_ok() == accepts(*self, height, count),
        r.is_ok() ==> r->Ok_0.0 == prec(*self, 0, height, count)->0 && r->Ok_0.1 == collected::<C>(self.entries@)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/verify.rs DenseTreeProof::verify_against_expected_root
//@ ret r
//@ spec
    ensures r.is_ok() == (accepts(*self, height, count) && prec(*self, 0, height, count) == Some(*expected_root)),
        r.is_ok() ==> r->Ok_0 == collected::<C>(self.entries@)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/verify.rs DenseTreeProof::verify_for_query
//@ ret r
//@ spec
    ensures r.is_ok() == (accepts(*self, height, count) && !query.sub && wf_items(query.items@, query.items@.len() as int)
            && (forall|p: u16| #[trigger] has_pos(self.entries@, p) <==> wanted(*query, count, p))),
        r.is_ok() ==> r->Ok_0.0 == prec(*self, 0, height, count)->0 && r->Ok_0.1 == collected::<C>(self.entries@)
//@ at start
proof { axiom_collected_vec(self.entries@); }
//@ before if !missing
proof { if missing@.len() > 0 { assert(missing@.contains(missing@[0])); } }
//@ before if !extra
proof { if extra@.len() > 0 { assert(extra@.contains(extra@[0])); }
  assert forall|p: u16| missing@.len() == 0 && extra@.len() == 0 implies (#[trigger] has_pos(self.entries@, p) <==> wanted(*query, count, p)) by { assert(!missing@.contains(p)); assert(!extra@.contains(p)); assert(expected_positions@.contains(p) <==> wanted(*query, count, p)); } }
//@ end
}
