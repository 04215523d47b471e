// C31: proofs of absence, chained queries, boundary keys. grovedb/src/operations/proof/{verify.rs,mod.rs}
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
pub type Key = Vec<u8>;
pub type Path = Vec<Vec<u8>>;
pub type CryptoHash = [u8; 32];
pub type H = CryptoHash;
pub type PathKey = (Path, Key);
pub type PathKeyOptionalElementTrio = (Path, Key, Option<Element>);
pub type Trio = PathKeyOptionalElementTrio;
pub type ProvedPathKeyValues = Vec<ProvedPathKeyValue>;
#[verifier::external_body] pub struct Element { x: u8 }
#[verifier::external_body] pub struct ProvedPathKeyValue { x: u8 }
#[verifier::external_body] pub struct TreeFeatureType { x: u8 }
#[verifier::external_body] pub struct Query { x: u8 }
pub struct Gates { pub v: u16 }
// every feature of this version
#[verifier::external_body] pub struct GroveVersion { x: u8 }
#[verifier::external_body] pub fn gate(v: &GroveVersion) -> (r: Result<(), Error>) { unimplemented!() }
impl Query {
    pub uninterp spec fn asks_below(self) -> bool;
    #[verifier::external_body] pub fn has_subquery(&self) -> (r: bool) ensures r == self.asks_below() { unimplemented!() }
}
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
pub open spec fn sv(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|v: &[u8]| v@) }
//@ rules
Error::$v($x..) ==> err()
check_grovedb_v0!($x..); ==> gate(grove_version)?;
println!($x..); ==>
//@ end
//@ type merk/src/proofs/query/verify.rs VerifyOptions
//@ attr #[derive(Clone, Copy)]
//@ end
//@ type grovedb/src/query/mod.rs SizedQuery
//@ type grovedb/src/query/mod.rs PathQuery
//@ type grovedb/src/operations/proof/mod.rs ProveOptions
//@ attr #[derive(Clone, Copy)]
//@ end
//@ type grovedb/src/operations/proof/mod.rs ProofBytes
// std's maps of the layers below, by key
#[verifier::external_body] pub struct LayerMap { x: u8 }
#[verifier::external_body] pub struct MerkLayerMap { x: u8 }
impl LayerMap {
    pub uninterp spec fn at(&self, k: Seq<u8>) -> Option<LayerProof>;
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Option<&LayerProof>) ensures match r { Some(x) => self.at(k@) == Some(*x), None => self.at(k@) is None } { unimplemented!() }
}
impl MerkLayerMap {
    pub uninterp spec fn at(&self, k: Seq<u8>) -> Option<MerkOnlyLayerProof>;
    #[verifier::external_body] pub fn get(&self, k: &[u8]) -> (r: Option<&MerkOnlyLayerProof>) ensures match r { Some(x) => self.at(k@) == Some(*x), None => self.at(k@) is None } { unimplemented!() }
}
//@ type grovedb/src/operations/proof/mod.rs LayerProof
//@ rule BTreeMap<Key, LayerProof> ==> LayerMap
//@ end
//@ type grovedb/src/operations/proof/mod.rs MerkOnlyLayerProof
//@ rule BTreeMap<Key, MerkOnlyLayerProof> ==> MerkLayerMap
//@ end
//@ type grovedb/src/operations/proof/mod.rs GroveDBProofV0
//@ type grovedb/src/operations/proof/mod.rs GroveDBProofV1
//@ type grovedb/src/operations/proof/mod.rs GroveDBProof
// bincode's decoding of a proof (C17)
pub uninterp spec fn proof_of(b: Seq<u8>) -> Option<GroveDBProof>;
#[verifier::external_body] pub fn decode_proof(b: &[u8]) -> (r: Result<GroveDBProof, Error>) ensures r is Ok == proof_of(b@) is Some, r is Ok ==> r->Ok_0 == proof_of(b@)->0 { unimplemented!() }

// ---- boundaries ------------------------------------------------------------------
// the layer at a path
pub open spec fn layer(l: LayerProof, p: Seq<Seq<u8>>) -> Option<LayerProof> decreases p.len()
{ if p.len() == 0 { Some(l) } else { match l.lower_layers.at(p[0]) { Some(c) => layer(c, p.drop_first()), None => None } } }
pub open spec fn merk_layer(l: MerkOnlyLayerProof, p: Seq<Seq<u8>>) -> Option<MerkOnlyLayerProof> decreases p.len()
{ if p.len() == 0 { Some(l) } else { match l.lower_layers.at(p[0]) { Some(c) => merk_layer(c, p.drop_first()), None => None } } }
// the bytes of the layer at a path, if it is a layer of elements
pub open spec fn shown_at(g: GroveDBProof, p: Seq<Seq<u8>>) -> Option<Seq<u8>> {
    match g {
        GroveDBProof::V0(v) => match merk_layer(v.root_layer, p) { Some(l) => Some(l.merk_proof@), None => None },
        GroveDBProof::V1(v) => match layer(v.root_layer, p) { Some(l) => match l.merk_proof { ProofBytes::Merk(b) => Some(b@), _ => None }, None => None },
    }
}
pub uninterp spec fn digest_keys(b: Seq<u8>) -> Seq<Seq<u8>>;
pub uninterp spec fn digest_in(b: Seq<u8>, k: Seq<u8>) -> bool;
// unit merk_verify
#[verifier::external_body] pub fn key_exists_as_boundary_in_proof(b: &[u8], key: &[u8]) -> (r: Result<bool, Error>) ensures r is Ok ==> r->Ok_0 == digest_in(b@, key@) { unimplemented!() }
#[verifier::external_body] pub fn boundaries_in_proof(b: &[u8]) -> (r: Result<Vec<Vec<u8>>, Error>) ensures r is Ok ==> dv(r->Ok_0@) == digest_keys(b@) { unimplemented!() }
pub proof fn first_of(p: Seq<&[u8]>, d: int) requires 0 <= d < p.len() ensures sv(p.skip(d))[0] == p[d]@, sv(p.skip(d)).drop_first() == sv(p.skip(d + 1)), sv(p.skip(d)).len() > 0
{ assert(sv(p.skip(d)).drop_first() =~= sv(p.skip(d + 1))); }
impl GroveDBProof {
//@ rules
path.len() ==> path.len()
grovedb_merk::proofs::query::boundaries_in_proof($x..).map_err(Into::into) ==> boundaries_in_proof($x)
grovedb_merk::proofs::query::key_exists_as_boundary_in_proof($x.., key).map_err(Into::into) ==> key_exists_as_boundary_in_proof($x, key)
grovedb_merk::proofs::query::key_exists_as_boundary_in_proof($x.., key,).map_err(Into::into) ==> key_exists_as_boundary_in_proof($x, key)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::boundaries_in_merk_layer
//@ ret r
//@ vis pub
//@ sig layer: ==> lay:
//@ rule layer. ==> lay.
//@ spec
    requires depth <= path@.len()
    ensures r is Ok ==> merk_layer(*lay, sv(path@.skip(depth as int))) is Some && dv(r->Ok_0@) == digest_keys(merk_layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof@)
    decreases path@.len() - depth
//@ at start
proof { if depth < path@.len() { first_of(path@, depth as int); } }
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::boundaries_in_layer
//@ ret r
//@ vis pub
//@ sig layer: ==> lay:
//@ rule layer. ==> lay.
//@ spec
    requires depth <= path@.len()
    ensures r is Ok ==> layer(*lay, sv(path@.skip(depth as int))) is Some && layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof is Merk && dv(r->Ok_0@) == digest_keys((layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof->Merk_0)@)
    decreases path@.len() - depth
//@ at start
proof { if depth < path@.len() { first_of(path@, depth as int); } }
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::find_boundary_in_merk_layer
//@ ret r
//@ vis pub
//@ sig layer: ==> lay:
//@ rule layer. ==> lay.
//@ spec
    requires depth <= path@.len()
    ensures r is Ok ==> merk_layer(*lay, sv(path@.skip(depth as int))) is Some && r->Ok_0 == digest_in(merk_layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof@, key@)
    decreases path@.len() - depth
//@ at start
proof { if depth < path@.len() { first_of(path@, depth as int); } }
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::find_boundary_in_layer
//@ ret r
//@ vis pub
//@ sig layer: ==> lay:
//@ rule layer. ==> lay.
//@ spec
    requires depth <= path@.len()
    ensures r is Ok ==> layer(*lay, sv(path@.skip(depth as int))) is Some && layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof is Merk && r->Ok_0 == digest_in((layer(*lay, sv(path@.skip(depth as int)))->0.merk_proof->Merk_0)@, key@)
    decreases path@.len() - depth
//@ at start
proof { if depth < path@.len() { first_of(path@, depth as int); } }
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::key_exists_as_boundary
//@ ret r
//@ spec
    ensures r is Ok ==> shown_at(*self, sv(path@)) is Some && r->Ok_0 == digest_in(shown_at(*self, sv(path@))->0, key@)
//@ at start
proof { assert(path@.skip(0) =~= path@); }
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::boundaries
//@ ret r
//@ spec
    ensures r is Ok ==> shown_at(*self, sv(path@)) is Some && dv(r->Ok_0@) == digest_keys(shown_at(*self, sv(path@))->0)
//@ at start
proof { assert(path@.skip(0) =~= path@); }
//@ end
}

// ---- verifying -------------------------------------------------------------------
// what walking the layers of a proof gives: root hash, the tree asked about, results (unit layered)
pub type Walk<T> = Option<(H, Option<TreeFeatureType>, Seq<T>)>;
pub trait Hit: Sized {
    spec fn walked(l: LayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self>;
    spec fn walked0(l: MerkOnlyLayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self>;
}
pub uninterp spec fn walk(l: LayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Trio>;
pub uninterp spec fn walk0(l: MerkOnlyLayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Trio>;
pub uninterp spec fn rwalk(l: LayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<ProvedPathKeyValue>;
pub uninterp spec fn rwalk0(l: MerkOnlyLayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<ProvedPathKeyValue>;
impl Hit for Trio {
    open spec fn walked(l: LayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self> { walk(l, po, q, lim, o) }
    open spec fn walked0(l: MerkOnlyLayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self> { walk0(l, po, q, lim, o) }
}
impl Hit for ProvedPathKeyValue {
    open spec fn walked(l: LayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self> { rwalk(l, po, q, lim, o) }
    open spec fn walked0(l: MerkOnlyLayerProof, po: ProveOptions, q: PathQuery, lim: Option<u16>, o: VerifyOptions) -> Walk<Self> { rwalk0(l, po, q, lim, o) }
}
pub open spec fn wholly() -> ProveOptions { ProveOptions { decrease_limit_on_empty_sub_query_result: true } }
impl ProveOptions {
//@ fn grovedb/src/operations/proof/mod.rs Default for ProveOptions::default
//@ ret r
//@ vis pub
//@ sig Self ==> ProveOptions
//@ spec
    ensures r == wholly()
//@ end
}
pub fn no_path() -> (r: &'static [&'static [u8]]) ensures r@.len() == 0 { &[] }
// the keys a query names, one by one, up to so many (unit query_keys)
pub uninterp spec fn terminals(q: PathQuery, max: int) -> Option<Seq<PathKey>>;
impl PathQuery {
    #[verifier::external_body] pub fn terminal_keys(&self, max_results: usize, v: &GroveVersion) -> (r: Result<Vec<PathKey>, Error>) ensures r is Ok ==> terminals(*self, max_results as int) == Some(r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub type At = (Seq<Seq<u8>>, Seq<u8>);
pub open spec fn at_of(p: PathKey) -> At { (dv(p.0@), p.1@) }
pub open spec fn at_hit(t: Trio) -> At { (dv(t.0@), t.1@) }
// the element of the last of the results there
pub open spec fn last_at(h: Seq<Trio>, a: At) -> Option<Option<Element>> decreases h.len()
{ if h.len() == 0 { None } else if at_hit(h.last()) == a { Some(h.last().2) } else { last_at(h.drop_last(), a) } }
pub open spec fn flat(x: Option<Option<Element>>) -> Option<Element> { match x { Some(e) => e, None => None } }
// std's map by path and key
#[verifier::external_body] pub struct ByKey { x: u8 }
impl ByKey {
    pub uninterp spec fn at(&self, a: At) -> Option<Option<Element>>;
    #[verifier::external_body] pub fn of(hits: Vec<Trio>) -> (r: Self) ensures forall|a: At| #[trigger] r.at(a) == last_at(hits@, a) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &PathKey) -> (r: Option<Option<Element>>)
        ensures r == old(self).at(at_of(*k)), final(self).at(at_of(*k)) is None, forall|a: At| a != at_of(*k) ==> #[trigger] final(self).at(a) == old(self).at(a) { unimplemented!() }
}
#[verifier::external_body] pub fn take_key(v: &Vec<PathKey>, i: usize) -> (r: PathKey) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub fn flatten(x: Option<Option<Element>>) -> (r: Option<Element>) ensures r == flat(x) { match x { Some(e) => e, None => None } }
// one result for each key, in order: what the results have there, or nothing; each result is taken once
pub open spec fn first_use(ks: Seq<PathKey>, i: int) -> bool { forall|j: int| 0 <= j < i ==> at_of(#[trigger] ks[j]) != at_of(ks[i]) }
pub open spec fn answer(ks: Seq<PathKey>, hits: Seq<Trio>, i: int, t: Trio) -> bool { at_hit(t) == at_of(ks[i]) && t.2 == (if first_use(ks, i) { flat(last_at(hits, at_of(ks[i]))) } else { None }) }
pub open spec fn one_each(ks: Seq<PathKey>, hits: Seq<Trio>, out: Seq<Trio>) -> bool { out.len() == ks.len() && forall|i: int| 0 <= i < out.len() ==> answer(ks, hits, i, #[trigger] out[i]) }
// what verifying says, given the walk
pub open spec fn says(w: Walk<Trio>, q: PathQuery, o: VerifyOptions, root: H, t: Option<TreeFeatureType>, out: Seq<Trio>) -> bool {
    w is Some && root == (w->0).0 && t == (w->0).1
    && (if o.absence_proofs_for_non_existing_searched_keys { q.query.limit is Some && terminals(q, q.query.limit->0 as int) is Some && one_each(terminals(q, q.query.limit->0 as int)->0, (w->0).2, out) } else { out == (w->0).2 })
}
pub open spec fn walk_of<T: Hit>(p: GroveDBProof, q: PathQuery, o: VerifyOptions) -> Walk<T> {
    match p { GroveDBProof::V0(v) => T::walked0(v.root_layer, v.prove_options, q, q.query.limit, o), GroveDBProof::V1(v) => T::walked(v.root_layer, wholly(), q, q.query.limit, o) }
}
pub open spec fn outcome(p: GroveDBProof, q: PathQuery, o: VerifyOptions, root: H, t: Option<TreeFeatureType>, out: Seq<Trio>) -> bool { says(walk_of::<Trio>(p, q, o), q, o, root, t, out) }
pub open spec fn opts(a: bool, s: bool, e: bool) -> VerifyOptions { VerifyOptions { absence_proofs_for_non_existing_searched_keys: a, verify_proof_succinctness: s, include_empty_trees_in_result: e } }
// of the bytes of a proof; with no offset
pub open spec fn proves(b: Seq<u8>, q: PathQuery, o: VerifyOptions, root: H, t: Option<TreeFeatureType>, out: Seq<Trio>) -> bool { q.query.offset is None && proof_of(b) is Some && outcome(proof_of(b)->0, q, o, root, t, out) }
pub open spec fn proves2(b: Seq<u8>, q: PathQuery, o: VerifyOptions, root: H, out: Seq<Trio>) -> bool { exists|t: Option<TreeFeatureType>| #[trigger] proves(b, q, o, root, t, out) }
pub open spec fn raw_of(w: Walk<ProvedPathKeyValue>, root: H, t: Option<TreeFeatureType>, out: Seq<ProvedPathKeyValue>) -> bool { w is Some && (w->0).0 == root && (w->0).1 == t && (w->0).2 == out }
pub open spec fn raw_proves(b: Seq<u8>, q: PathQuery, root: H, t: Option<TreeFeatureType>, out: Seq<ProvedPathKeyValue>) -> bool { proof_of(b) is Some && raw_of(walk_of::<ProvedPathKeyValue>(proof_of(b)->0, q, opts(false, false, true)), root, t, out) }
pub open spec fn raw_proves2(b: Seq<u8>, q: PathQuery, root: H, out: Seq<ProvedPathKeyValue>) -> bool { exists|t: Option<TreeFeatureType>| #[trigger] raw_proves(b, q, root, t, out) }
//@ rules
result.into_iter().map(|(path, key, element)| ((path, key), element)).collect() ==> ByKey::of(result)
BTreeMap<PathKey, Option<Element>> ==> ByKey
$m.remove(&terminal_key).flatten() ==> flatten($m.remove(&terminal_key))
&mut limit, &[], ==> &mut limit, no_path(),
//@ end
#[verifier::external_body] pub fn clone_hits(x: &Vec<Trio>) -> (r: Vec<Trio>) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn hash_eq(a: &H, b: &H) -> (r: bool) ensures r == (*a == *b) { a == b }
// each query of a chain is what its generator gives for the answer before it, and its answer is what verifying it alone gives, under the same root hash
pub open spec fn link<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, root: H, c: C, before: Vec<Trio>, after: Vec<Trio>, q: PathQuery) -> bool { call_ensures(c, (before,), Some(q)) && proves2(b, q, opts(false, false, false), root, after@) }
pub open spec fn linked<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, root: H, cs: Seq<C>, first: Seq<Vec<Trio>>, all: Seq<Vec<Trio>>, i: int) -> bool { exists|q: PathQuery| #[trigger] link(b, root, cs[i], all[first.len() + i - 1], all[first.len() + i], q) }
pub open spec fn links<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, root: H, cs: Seq<C>, first: Seq<Vec<Trio>>, all: Seq<Vec<Trio>>, n: int) -> bool { all.len() == first.len() + n && all.take(first.len() as int) =~= first && forall|i: int| 0 <= i < n ==> #[trigger] linked(b, root, cs, first, all, i) }
pub open spec fn chain<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, root: H, cs: Seq<C>, first: Seq<Vec<Trio>>, all: Seq<Vec<Trio>>) -> bool { links(b, root, cs, first, all, cs.len() as int) }
pub open spec fn chained<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, q: PathQuery, cs: Seq<C>, root: H, all: Seq<Vec<Trio>>) -> bool { all.len() == cs.len() + 1 && proves2(b, q, opts(false, false, false), root, all[0]@) && chain(b, root, cs, seq![all[0]], all) }
pub struct GroveDb;
impl GroveDb {
    #[verifier::external_body] pub fn verify_layer_proof_v1<T: Hit>(l: &LayerProof, po: &ProveOptions, q: &PathQuery, lim: &mut Option<u16>, path: &[&[u8]], result: &mut Vec<T>, tree: &mut Option<TreeFeatureType>, o: &VerifyOptions, depth: usize, v: &GroveVersion) -> (r: Result<H, Error>)
        requires path@.len() == 0, old(result)@.len() == 0, *old(tree) is None, depth == 0
        ensures r is Ok ==> T::walked(*l, *po, *q, *old(lim), *o) == Some((r->Ok_0, *final(tree), final(result)@))
    { unimplemented!() }
    #[verifier::external_body] pub fn verify_layer_proof<T: Hit>(l: &MerkOnlyLayerProof, po: &ProveOptions, q: &PathQuery, lim: &mut Option<u16>, path: &[&[u8]], result: &mut Vec<T>, tree: &mut Option<TreeFeatureType>, o: &VerifyOptions, depth: usize, v: &GroveVersion) -> (r: Result<H, Error>)
        requires path@.len() == 0, old(result)@.len() == 0, *old(tree) is None, depth == 0
        ensures r is Ok ==> T::walked0(*l, *po, *q, *old(lim), *o) == Some((r->Ok_0, *final(tree), final(result)@))
    { unimplemented!() }
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_v0_internal
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst let mut result = Vec::new(); ==> let mut result: Vec<Trio> = Vec::new();
//@ rulefirst result = terminal_keys.into_iter().map(|terminal_key| { $b.. ($c..) }).collect(); ==> let ghost hits = result@; let ghost all = terminal_keys@; let mut ti: usize = 0; let mut out: Vec<Trio> = Vec::new(); while ti < terminal_keys.len() { let terminal_key = take_key(&terminal_keys, ti); $b out.push(($c)); ti = ti + 1; } result = out;
//@ rulefirst let mut result_set_as_map ==> let ghost hits = result@; let mut result_set_as_map
//@ rulefirst let ghost hits = result@; let ghost all ==> let ghost all
//@ spec
    ensures r is Ok ==> says(walk0(proof.root_layer, proof.prove_options, *query, query.query.limit, options), *query, options, (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ loop 1
    invariant ti <= all.len(), terminal_keys@ == all, out@.len() == ti, forall|i: int| 0 <= i < ti ==> answer(all, hits, i, #[trigger] out@[i]),
        forall|a: At| #[trigger] result_set_as_map.at(a) == (if used(all, ti as int, a) { None } else { last_at(hits, a) })
    decreases all.len() - ti
//@ loopstart 1
    proof { assert(first_use(all, ti as int) == !used(all, ti as int, at_of(all[ti as int]))); }
//@ loopend 1
    proof { used_next(all, ti - 1); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_v1_internal
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst let mut result = Vec::new(); ==> let mut result: Vec<Trio> = Vec::new();
//@ rulefirst result = terminal_keys.into_iter().map(|terminal_key| { $b.. ($c..) }).collect(); ==> let ghost hits = result@; let ghost all = terminal_keys@; let mut ti: usize = 0; let mut out: Vec<Trio> = Vec::new(); while ti < terminal_keys.len() { let terminal_key = take_key(&terminal_keys, ti); $b out.push(($c)); ti = ti + 1; } result = out;
//@ rulefirst let mut result_set_as_map ==> let ghost hits = result@; let mut result_set_as_map
//@ rulefirst let ghost hits = result@; let ghost all ==> let ghost all
//@ spec
    ensures r is Ok ==> says(walk(proof.root_layer, wholly(), *query, query.query.limit, options), *query, options, (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ loop 1
    invariant ti <= all.len(), terminal_keys@ == all, out@.len() == ti, forall|i: int| 0 <= i < ti ==> answer(all, hits, i, #[trigger] out@[i]),
        forall|a: At| #[trigger] result_set_as_map.at(a) == (if used(all, ti as int, a) { None } else { last_at(hits, a) })
    decreases all.len() - ti
//@ loopstart 1
    proof { assert(first_use(all, ti as int) == !used(all, ti as int, at_of(all[ti as int]))); }
//@ loopend 1
    proof { used_next(all, ti - 1); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_raw_internal_v0
//@ ret r
//@ vis pub
//@ rulefirst let mut result = Vec::new(); ==> let mut result: ProvedPathKeyValues = Vec::new();
//@ spec
    ensures r is Ok ==> raw_of(rwalk0(proof.root_layer, proof.prove_options, *query, query.query.limit, options), (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_v1_raw_internal
//@ ret r
//@ vis pub
//@ rulefirst let mut result = Vec::new(); ==> let mut result: ProvedPathKeyValues = Vec::new();
//@ spec
    ensures r is Ok ==> raw_of(rwalk(proof.root_layer, wholly(), *query, query.query.limit, options), (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_internal
//@ ret r
//@ vis pub
//@ sig proof: &GroveDBProof ==> pf: &GroveDBProof
//@ rule match proof ==> match pf
//@ spec
    ensures r is Ok ==> outcome(*pf, *query, options, (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_proof_raw_internal
//@ ret r
//@ vis pub
//@ sig proof: &GroveDBProof ==> pf: &GroveDBProof
//@ rule match proof ==> match pf
//@ spec
    ensures r is Ok ==> raw_of(walk_of::<ProvedPathKeyValue>(*pf, *query, options), (r->Ok_0).0, (r->Ok_0).1, (r->Ok_0).2@)
//@ end
//@ rules
let config = bincode::config::standard().with_big_endian().with_limit::<{ $x.. }>(); ==>
bincode::decode_from_slice(proof, config).map_err($x..)?.0 ==> decode_proof(proof)?
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_options
//@ ret r
//@ spec
    ensures r is Ok ==> proves2(proof@, *query, options, (r->Ok_0).0, (r->Ok_0).1@)
//@ rule (root_hash, _, result) ==> (root_hash, tree_type, result)
//@ before Ok((root_hash
proof { assert(proves(proof@, *query, options, root_hash, tree_type, result@)); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_get_parent_tree_info_with_options
//@ ret r
//@ spec
    ensures r is Ok ==> !query.query.query.asks_below() && proves(proof@, *query, options, (r->Ok_0).0, Some((r->Ok_0).1), (r->Ok_0).2@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_raw
//@ ret r
//@ rule (root_hash, _, result) ==> (root_hash, tree_type, result)
//@ before Ok((root_hash
proof { assert(raw_proves(proof@, *query, root_hash, tree_type, result@)); }
//@ spec
    ensures r is Ok ==> raw_proves2(proof@, *query, (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query
//@ ret r
//@ spec
    ensures r is Ok ==> proves2(proof@, *query, opts(false, true, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query
//@ ret r
//@ spec
    ensures r is Ok ==> proves2(proof@, *query, opts(false, false, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_absence_proof
//@ ret r
//@ spec
    ensures r is Ok ==> proves2(proof@, *query, opts(true, true, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query_with_absence_proof
//@ ret r
//@ spec
    ensures r is Ok ==> proves2(proof@, *query, opts(true, false, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::process_chained_path_queries
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst for path_query_generator in chained_path_queries { $b.. } ==> let mut ci: usize = 0; let ghost first = results@; while ci < chained_path_queries.len() { let path_query_generator = &chained_path_queries[ci]; $b ci = ci + 1; }
//@ rulefirst results[results.len() - 1].clone() ==> clone_hits(&results[results.len() - 1])
//@ rulefirst new_root_hash != last_root_hash ==> !hash_eq(&new_root_hash, &last_root_hash)
//@ spec
    requires old(results)@.len() > 0, forall|i: int, x: (Vec<Trio>,)| 0 <= i < chained_path_queries@.len() ==> #[trigger] call_requires(chained_path_queries@[i], x), old(results)@.len() + chained_path_queries@.len() <= usize::MAX
    ensures r is Ok ==> chain(proof@, last_root_hash, chained_path_queries@, old(results)@, final(results)@)
//@ loop 1
    invariant ci <= chained_path_queries@.len(), links(proof@, last_root_hash, chained_path_queries@, first, results@, ci as int), forall|i: int, x: (Vec<Trio>,)| 0 <= i < chained_path_queries@.len() ==> #[trigger] call_requires(chained_path_queries@[i], x)
    decreases chained_path_queries@.len() - ci
//@ loopstart 1
    let ghost before = results@;
//@ loopend 1
    proof {
      assert(results@[first.len() + (ci - 1) - 1] == before[before.len() - 1]);
      assert(call_ensures(chained_path_queries@[ci - 1], (before[before.len() - 1],), Some(new_path_query)));
      assert(proves2(proof@, new_path_query, opts(false, false, false), new_root_hash, results@[before.len() as int]@));
      assert(link(proof@, last_root_hash, chained_path_queries@[ci - 1], results@[first.len() + (ci - 1) - 1], results@[first.len() + (ci - 1)], new_path_query));
      assert(linked(proof@, last_root_hash, chained_path_queries@, first, results@, ci - 1));
      assert forall|i: int| 0 <= i < ci implies #[trigger] linked(proof@, last_root_hash, chained_path_queries@, first, results@, i) by { if i < ci - 1 { assert(linked(proof@, last_root_hash, chained_path_queries@, first, before, i)); assert(results@ =~= before.push(results@.last())); linked_on(proof@, last_root_hash, chained_path_queries@, first, before, i, results@.last()); } }
    }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_chained_path_queries
//@ ret r
//@ rulefirst let mut results = vec![]; ==> let mut results: Vec<Vec<Trio>> = Vec::new();
//@ spec
    requires forall|i: int, x: (Vec<Trio>,)| 0 <= i < chained_path_queries@.len() ==> #[trigger] call_requires(chained_path_queries@[i], x), chained_path_queries@.len() < usize::MAX
    ensures r is Ok ==> chained(proof@, *first_query, chained_path_queries@, r->Ok_0.0, r->Ok_0.1@)
//@ before Self::process_chained_path_queries
let ghost r0 = results@;
//@ before Ok((last_root_hash
proof { assert(results@.take(1)[0] == results@[0]); assert(r0 =~= seq![results@[0]]); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_get_parent_tree_info
//@ ret r
//@ spec
    ensures r is Ok ==> !query.query.query.asks_below() && proves(proof@, *query, opts(false, true, false), (r->Ok_0).0, Some((r->Ok_0).1), (r->Ok_0).2@)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query_get_parent_tree_info
//@ ret r
//@ spec
    ensures r is Ok ==> !query.query.query.asks_below() && proves(proof@, *query, opts(false, false, false), (r->Ok_0).0, Some((r->Ok_0).1), (r->Ok_0).2@)
//@ end
}
// on a decoded proof
pub open spec fn outcome2(p: GroveDBProof, q: PathQuery, o: VerifyOptions, root: H, out: Seq<Trio>) -> bool { exists|t: Option<TreeFeatureType>| #[trigger] outcome(p, q, o, root, t, out) }
pub open spec fn raw_outcome(p: GroveDBProof, q: PathQuery, root: H, t: Option<TreeFeatureType>, out: Seq<ProvedPathKeyValue>) -> bool { raw_of(walk_of::<ProvedPathKeyValue>(p, q, opts(false, false, true)), root, t, out) }
pub open spec fn raw_outcome2(p: GroveDBProof, q: PathQuery, root: H, out: Seq<ProvedPathKeyValue>) -> bool { exists|t: Option<TreeFeatureType>| #[trigger] raw_outcome(p, q, root, t, out) }
pub fn drop_tree(x: Result<(H, Option<TreeFeatureType>, Vec<Trio>), Error>) -> (r: Result<(H, Vec<Trio>), Error>)
    ensures r is Ok == x is Ok, r is Ok ==> (r->Ok_0).0 == (x->Ok_0).0 && (r->Ok_0).1 == (x->Ok_0).2
{ match x { Ok((h, _, v)) => Ok((h, v)), Err(e) => Err(e) } }
pub fn drop_tree_raw(x: Result<(H, Option<TreeFeatureType>, ProvedPathKeyValues), Error>) -> (r: Result<(H, ProvedPathKeyValues), Error>)
    ensures r is Ok == x is Ok, r is Ok ==> (r->Ok_0).0 == (x->Ok_0).0 && (r->Ok_0).1 == (x->Ok_0).2
{ match x { Ok((h, _, v)) => Ok((h, v)), Err(e) => Err(e) } }
impl GroveDBProof {
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify_with_options
//@ ret r
//@ rulefirst GroveDb::verify_proof_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_internal($x); proof { if x is Ok { assert(outcome(*self, *query, options, (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree(x)
//@ spec
    ensures r is Ok ==> outcome2(*self, *query, options, (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify
//@ ret r
//@ rulefirst GroveDb::verify_proof_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_internal($x); proof { if x is Ok { assert(outcome(*self, *query, opts(false, true, false), (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree(x)
//@ spec
    ensures r is Ok ==> outcome2(*self, *query, opts(false, true, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify_with_absence_proof
//@ ret r
//@ rulefirst GroveDb::verify_proof_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_internal($x); proof { if x is Ok { assert(outcome(*self, *query, opts(true, true, false), (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree(x)
//@ spec
    ensures r is Ok ==> outcome2(*self, *query, opts(true, true, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify_subset
//@ ret r
//@ rulefirst GroveDb::verify_proof_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_internal($x); proof { if x is Ok { assert(outcome(*self, *query, opts(false, false, false), (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree(x)
//@ spec
    ensures r is Ok ==> outcome2(*self, *query, opts(false, false, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify_subset_with_absence_proof
//@ ret r
//@ rulefirst GroveDb::verify_proof_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_internal($x); proof { if x is Ok { assert(outcome(*self, *query, opts(true, false, false), (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree(x)
//@ spec
    ensures r is Ok ==> outcome2(*self, *query, opts(true, false, false), (r->Ok_0).0, (r->Ok_0).1@)
//@ end
//@ fn grovedb/src/operations/proof/mod.rs GroveDBProof::verify_raw
//@ ret r
//@ rulefirst GroveDb::verify_proof_raw_internal($x..).map(|(root_hash, _, results)| (root_hash, results)) ==> let x = GroveDb::verify_proof_raw_internal($x); proof { if x is Ok { assert(raw_outcome(*self, *query, (x->Ok_0).0, (x->Ok_0).1, (x->Ok_0).2@)); } } drop_tree_raw(x)
//@ spec
    ensures r is Ok ==> raw_outcome2(*self, *query, (r->Ok_0).0, (r->Ok_0).1@)
//@ end
}
pub proof fn linked_on<C: Fn(Vec<Trio>) -> Option<PathQuery>>(b: Seq<u8>, root: H, cs: Seq<C>, first: Seq<Vec<Trio>>, all: Seq<Vec<Trio>>, i: int, x: Vec<Trio>)
    requires linked(b, root, cs, first, all, i), 0 <= i, first.len() > 0, first.len() + i < all.len()
    ensures linked(b, root, cs, first, all.push(x), i)
{ let q = choose|q: PathQuery| #[trigger] link(b, root, cs[i], all[first.len() + i - 1], all[first.len() + i], q); let n = all.push(x); assert(n[first.len() + i - 1] == all[first.len() + i - 1]); assert(n[first.len() + i] == all[first.len() + i]); assert(link(b, root, cs[i], n[first.len() + i - 1], n[first.len() + i], q)); }
pub open spec fn used(ks: Seq<PathKey>, n: int, a: At) -> bool { exists|j: int| 0 <= j < n && at_of(#[trigger] ks[j]) == a }
pub proof fn used_next(ks: Seq<PathKey>, n: int) requires 0 <= n < ks.len() ensures forall|a: At| #[trigger] used(ks, n + 1, a) == (used(ks, n, a) || at_of(ks[n]) == a)
{ assert forall|a: At| #[trigger] used(ks, n + 1, a) == (used(ks, n, a) || at_of(ks[n]) == a) by {
    if used(ks, n, a) { let j = choose|j: int| 0 <= j < n && at_of(#[trigger] ks[j]) == a; assert(j < n + 1); }
    if at_of(ks[n]) == a { assert(used(ks, n + 1, a)); } } }
} // verus!
fn main() {}
