// C28: a call made under a feature version. grovedb-version/src/lib.rs, grovedb-version/src/version/mod.rs and the compiled functions they gate
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type FeatureVersion = u16;
//@ macro grovedb-version/src/lib.rs check_grovedb_v0
//@ macro grovedb-version/src/lib.rs check_merk_v0
//@ macro grovedb-version/src/lib.rs check_grovedb_v0_with_cost
//@ macro grovedb-version/src/lib.rs check_merk_v0_with_cost
//@ macro grovedb-version/src/lib.rs check_grovedb_v0_or_v1
//@ macro grovedb-version/src/lib.rs check_grovedb_v0_or_v1_with_cost
//@ rules
error::GroveVersionError ==> GroveVersionError
Err(GroveVersionError::UnknownVersionMismatch { $b.. }.into()) ==> Err(versioned(GroveVersionError::UnknownVersionMismatch { $b }))
grovedb_costs::CostsExt::wrap_with_cost($v.., Default::default(),) ==> CostContext { value: $v, cost: no_cost() }
vec![$a, $b] ==> two($a, $b)
vec![$a] ==> one($a)
method: $m.to_string() ==> method: text($m)
const $n: u16 = $v; ==> let $n: u16 = $v;
Error::NotSupported($x..) ==> other()
Error::InvalidProof($x..) ==> other()
Error::InvalidInput($x..) ==> other()
query.query.limit.ok_or($e..)?; ==> if query.query.limit.is_none() { return Err($e); }
let config = bincode::config::standard().with_big_endian().with_limit::<$l>(); ==>
bincode::decode_from_slice(proof, config).map_err($e..)?.0 ==> decode(proof)?
//@ end
//@ type grovedb-version/src/error.rs GroveVersionError
//@ attr #[derive(Debug)]
//@ end
// ---- trusted stand-ins --------------------------------------------------------
// the error types of grovedb, merk and grovedb-element all hold a GroveVersionError in this variant (From)
#[derive(Debug)]
pub enum Error { VersionError(GroveVersionError), Other(u8) }
pub type ElementError = Error;
pub fn versioned(e: GroveVersionError) -> (r: Error) ensures r == Error::VersionError(e) { Error::VersionError(e) }
pub fn other() -> (r: Error) ensures r == Error::Other(0) { Error::Other(0) }
#[verifier::external_body] pub struct OperationCost { x: u8 }
#[verifier::external_body] pub fn no_cost() -> (r: OperationCost) { unimplemented!() }
pub struct CostContext<T> { pub value: T, pub cost: OperationCost }
#[verifier::external_body] pub fn text(m: &str) -> (r: String) ensures r@ == m@ { m.to_string() }
pub fn one(a: u16) -> (r: Vec<u16>) ensures r@ == seq![a] { let mut v: Vec<u16> = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
pub fn two(a: u16, b: u16) -> (r: Vec<u16>) ensures r@ == seq![a, b] { let mut v: Vec<u16> = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
// ---- what a refusal says ---------------------------------------------------------
pub open spec fn refused(e: Error, method: Seq<char>, known: Seq<u16>, got: u16) -> bool {
    match e { Error::VersionError(GroveVersionError::UnknownVersionMismatch { method: m, known_versions: k, received: r }) => m@ == method && k@ == known && r == got, _ => false }
}
pub open spec fn gate0<T>(r: Result<T, Error>, m: Seq<char>, v: u16) -> bool { match r { Ok(_) => v == 0, Err(e) => v != 0 && refused(e, m, seq![0u16], v) } }
pub open spec fn gate01<T>(r: Result<T, Error>, m: Seq<char>, v: u16) -> bool { match r { Ok(_) => v == 0 || v == 1, Err(e) => v > 1 && refused(e, m, seq![0u16, 1u16], v) } }
// the macros, each put in a function: what follows it runs exactly under the versions it names
//@ text
pub fn use_grovedb_v0(m: &str, v: u16) -> (r: Result<(), Error>) ensures gate0(r, m@, v) { check_grovedb_v0!(m, v); Ok(()) }
pub fn use_merk_v0(m: &str, v: u16) -> (r: Result<(), Error>) ensures gate0(r, m@, v) { check_merk_v0!(m, v); Ok(()) }
pub fn use_grovedb_v0_or_v1(m: &str, v: u16) -> (r: Result<u16, Error>) ensures gate01(r, m@, v), r is Ok ==> r.unwrap() == v { let x = check_grovedb_v0_or_v1!(m, v); Ok(x) }
pub fn use_grovedb_v0_with_cost(m: &str, v: u16) -> (r: CostContext<Result<(), Error>>) ensures gate0(r.value, m@, v) { check_grovedb_v0_with_cost!(m, v); CostContext { value: Ok(()), cost: no_cost() } }
pub fn use_merk_v0_with_cost(m: &str, v: u16) -> (r: CostContext<Result<(), Error>>) ensures gate0(r.value, m@, v) { check_merk_v0_with_cost!(m, v); CostContext { value: Ok(()), cost: no_cost() } }
pub fn use_grovedb_v0_or_v1_with_cost(m: &str, v: u16) -> (r: CostContext<Result<(), Error>>) ensures gate01(r.value, m@, v) { check_grovedb_v0_or_v1_with_cost!(m, v); CostContext { value: Ok(()), cost: no_cost() } }
//@ end
// ---- the version table -------------------------------------------------------------

//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBQueryLimits
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBAggregateSumPathQueryMethodVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBPathQueryMethodVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBApplyBatchVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsGetVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsProofVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsQueryVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsAverageCaseVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsWorstCaseVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsInsertVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsDeleteVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsDeleteUpTreeVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBOperationsApplyBatchVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBElementMethodVersions
//@ type grovedb-version/src/version/grovedb_versions.rs GroveDBReplicationVersions
//@ type grovedb-version/src/version/merk_versions.rs MerkVersions
//@ type grovedb-version/src/version/merk_versions.rs MerkBatchVersions
//@ type grovedb-version/src/version/merk_versions.rs MerkAverageCaseCostsVersions
//@ type grovedb-version/src/version/mod.rs GroveVersion
// GROVE_VERSIONS: its protocol numbers are checked by the search
pub struct Table { pub v: Vec<GroveVersion> }
#[verifier::external_body] pub fn grove_versions<'a>() -> (r: &'a [GroveVersion]) ensures r@ == table(), table().len() > 0 { unimplemented!() }
pub uninterp spec fn table() -> Seq<GroveVersion>;
impl GroveVersion {
//@ fn grovedb-version/src/version/mod.rs GroveVersion::first
//@ rule GROVE_VERSIONS.first().expect($m) ==> grove_versions().first().unwrap()
//@ ret r
//@ spec
  ensures *r == table()[0]
//@ end
//@ fn grovedb-version/src/version/mod.rs GroveVersion::latest
//@ rule GROVE_VERSIONS.last().expect($m) ==> grove_versions().last().unwrap()
//@ ret r
//@ spec
  ensures *r == table().last()
//@ end
}
// ---- elements ----------------------------------------------------------------------
#[verifier::external_body] pub struct Element { x: u8 }
pub uninterp spec fn encoded(e: Element) -> Option<Seq<u8>>;
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Element>;
#[verifier::external_body] pub fn encode(e: &Element) -> (r: Result<Vec<u8>, Error>) ensures r is Ok == encoded(*e) is Some, r is Ok ==> r.unwrap()@ == encoded(*e).unwrap(), r is Err ==> r == Err::<Vec<u8>, Error>(Error::Other(0)) { unimplemented!() }
#[verifier::external_body] pub fn decode_element(b: &[u8]) -> (r: Result<Element, Error>) ensures r is Ok == decoded(b@) is Some, r is Ok ==> r.unwrap() == decoded(b@).unwrap(), r is Err ==> r == Err::<Element, Error>(Error::Other(0)) { unimplemented!() }
#[verifier::external_body] pub fn varint_space(x: u32) -> (r: usize) ensures r == vspace(x) { unimplemented!() }
pub open spec fn vspace(x: u32) -> usize { if x < 0x80 { 1 } else if x < 0x4000 { 2 } else if x < 0x20_0000 { 3 } else if x < 0x1000_0000 { 4 } else { 5 } }
impl Element {
//@ fn grovedb-element/src/element/serialize.rs Element::serialize
//@ rulefirst bincode::encode_to_vec(self, config).map_err($e..) ==> encode(self)
//@ rulefirst let config = config::standard().with_big_endian().with_no_limit(); ==>
//@ ret r
//@ spec
  ensures match r { Ok(b) => grove_version.grovedb_versions.element.serialize == 0 && encoded(*self) == Some(b@),
    Err(e) => (grove_version.grovedb_versions.element.serialize != 0 ==> refused(e, "Element::serialize"@, seq![0u16], grove_version.grovedb_versions.element.serialize)) && (grove_version.grovedb_versions.element.serialize == 0 ==> encoded(*self) is None) }
//@ end
//@ fn grovedb-element/src/element/serialize.rs Element::serialized_size
//@ rulefirst self.serialize(grove_version).map(|serialized| serialized.len()) ==> match self.serialize(grove_version) { Ok(serialized) => Ok(serialized.len()), Err(e) => Err(e) }
//@ ret r
//@ spec
  ensures match r { Ok(n) => grove_version.grovedb_versions.element.serialized_size == 0 && encoded(*self) is Some && n == encoded(*self).unwrap().len(),
    Err(e) => grove_version.grovedb_versions.element.serialized_size != 0 ==> refused(e, "Element::serialized_size"@, seq![0u16], grove_version.grovedb_versions.element.serialized_size) }
//@ end
//@ fn grovedb-element/src/element/serialize.rs Element::deserialize
//@ rulefirst let config = config::standard().with_big_endian(); ==>
//@ rulefirst let decoded = if $c.. { $a.. } else { $b.. }; ==>
//@ rulefirst Ok(decoded.map_err($e..)?.0) ==> decode_element(bytes)
//@ ret r
//@ spec
  ensures match r { Ok(x) => grove_version.grovedb_versions.element.deserialize == 0 && decoded(bytes@) == Some(x),
    Err(e) => (grove_version.grovedb_versions.element.deserialize != 0 ==> refused(e, "Element::deserialize"@, seq![0u16], grove_version.grovedb_versions.element.deserialize)) && (grove_version.grovedb_versions.element.deserialize == 0 ==> decoded(bytes@) is None) }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::required_item_space
//@ rulefirst $x.required_space() ==> varint_space($x)
//@ ret r
//@ spec
  requires len + flag_len + 11 <= u32::MAX
  ensures match r { Ok(n) => grove_version.grovedb_versions.element.required_item_space == 0 && n == len + vspace(len) + flag_len + vspace(flag_len) + 1,
    Err(e) => grove_version.grovedb_versions.element.required_item_space != 0 && refused(e, "required_item_space"@, seq![0u16], grove_version.grovedb_versions.element.required_item_space) }
//@ end
}
// ---- proofs of path queries: what the entry points ask of the verifier proper ----------
pub type CryptoHash = [u8; 32];
#[verifier::external_body] pub struct TreeFeatureType { x: u8 }
#[verifier::external_body] pub struct PathKeyOptionalElementTrio { x: u8 }
#[verifier::external_body] pub struct ProvedPathKeyValues { x: u8 }
#[verifier::external_body] pub struct GroveDBProof { x: u8 }
#[verifier::external_body] pub struct Query { x: u8 }
pub struct SizedQuery { pub query: Query, pub limit: Option<u16>, pub offset: Option<u16> }
pub struct PathQuery { pub path: Vec<Vec<u8>>, pub query: SizedQuery }
impl Query { pub uninterp spec fn subq(&self) -> bool; #[verifier::external_body] pub fn has_subquery(&self) -> (r: bool) ensures r == self.subq() { unimplemented!() } }
pub struct GroveDb { pub x: u8 }
//@ type merk/src/proofs/query/verify.rs VerifyOptions
pub uninterp spec fn proof_of(b: Seq<u8>) -> Option<GroveDBProof>;
#[verifier::external_body] pub fn decode(b: &[u8]) -> (r: Result<GroveDBProof, Error>) ensures r is Ok == proof_of(b@) is Some, r is Ok ==> r.unwrap() == proof_of(b@).unwrap() { unimplemented!() }
pub type Verified = (CryptoHash, Option<TreeFeatureType>, Vec<PathKeyOptionalElementTrio>);
// the verifier proper (C25), under these options and this version
pub uninterp spec fn inner(p: GroveDBProof, q: PathQuery, o: VerifyOptions, v: GroveVersion) -> Option<Verified>;
pub uninterp spec fn inner_raw(p: GroveDBProof, q: PathQuery, o: VerifyOptions, v: GroveVersion) -> Option<(CryptoHash, Option<TreeFeatureType>, ProvedPathKeyValues)>;
pub open spec fn from_bytes(b: Seq<u8>, q: PathQuery, o: VerifyOptions, v: GroveVersion) -> Option<Verified> { match proof_of(b) { Some(p) => inner(p, q, o, v), None => None } }
pub open spec fn opts(absence: bool, succinct: bool, empty: bool) -> VerifyOptions { VerifyOptions { absence_proofs_for_non_existing_searched_keys: absence, verify_proof_succinctness: succinct, include_empty_trees_in_result: empty } }
pub open spec fn allowed(q: PathQuery, o: VerifyOptions) -> bool { q.query.offset is None && (o.absence_proofs_for_non_existing_searched_keys ==> q.query.limit is Some) }
pub open spec fn step<C: Fn(Vec<PathKeyOptionalElementTrio>) -> Option<PathQuery>>(c: C, before: Vec<PathKeyOptionalElementTrio>, after: Vec<PathKeyOptionalElementTrio>, b: Seq<u8>, h: CryptoHash, v: GroveVersion) -> bool
{ exists|q: PathQuery| #[trigger] call_ensures(c, (before,), Some(q)) && ({ let f = from_bytes(b, q, opts(false, false, false), v); f is Some && f.unwrap().0 == h && f.unwrap().2 == after }) }
#[verifier::external_body] pub fn copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn same_hash(a: &CryptoHash, b: &CryptoHash) -> (r: bool) ensures r == (*a == *b) { a == b }
pub open spec fn gated(e: Error, m: Seq<char>, v: u16) -> bool { v != 0 ==> refused(e, m, seq![0u16], v) }
pub open spec fn plain(r: Result<(CryptoHash, Vec<PathKeyOptionalElementTrio>), Error>, b: Seq<u8>, q: PathQuery, o: VerifyOptions, v: GroveVersion) -> bool {
    let w = v.grovedb_versions.operations.proof.verify_query_with_options;
    match r { Ok((h, x)) => w == 0 && allowed(q, o) && from_bytes(b, q, o, v) is Some && h == from_bytes(b, q, o, v).unwrap().0 && x == from_bytes(b, q, o, v).unwrap().2,
        Err(e) => gated(e, "verify_query_with_options"@, w) && (w == 0 && allowed(q, o) ==> from_bytes(b, q, o, v) is None) }
}
pub open spec fn parent(r: Result<(CryptoHash, TreeFeatureType, Vec<PathKeyOptionalElementTrio>), Error>, b: Seq<u8>, q: PathQuery, o: VerifyOptions, v: GroveVersion) -> bool {
    let w = v.grovedb_versions.operations.proof.verify_query_get_parent_tree_info_with_options;
    match r { Ok((h, f, x)) => w == 0 && allowed(q, o) && !q.query.query.subq() && from_bytes(b, q, o, v) == Some((h, Some(f), x)),
        Err(e) => gated(e, "verify_query_get_parent_tree_info_with_options"@, w) && (w == 0 && allowed(q, o) && !q.query.query.subq() ==> from_bytes(b, q, o, v) is None || from_bytes(b, q, o, v).unwrap().1 is None) }
}
impl GroveDb {
#[verifier::external_body] pub fn verify_proof_internal(proof: &GroveDBProof, query: &PathQuery, options: VerifyOptions, grove_version: &GroveVersion) -> (r: Result<Verified, Error>)
    ensures r is Ok == inner(*proof, *query, options, *grove_version) is Some, r is Ok ==> r.unwrap() == inner(*proof, *query, options, *grove_version).unwrap() { unimplemented!() }
#[verifier::external_body] pub fn verify_proof_raw_internal(proof: &GroveDBProof, query: &PathQuery, options: VerifyOptions, grove_version: &GroveVersion) -> (r: Result<(CryptoHash, Option<TreeFeatureType>, ProvedPathKeyValues), Error>)
    ensures r is Ok == inner_raw(*proof, *query, options, *grove_version) is Some, r is Ok ==> r.unwrap() == inner_raw(*proof, *query, options, *grove_version).unwrap() { unimplemented!() }

//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_options
//@ ret r
//@ spec
  ensures plain(r, proof@, *query, options, *grove_version)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_get_parent_tree_info_with_options
//@ rulefirst tree_feature_type.ok_or($e..)? ==> (match tree_feature_type { Some(t) => t, None => { return Err(other()); } })
//@ ret r
//@ spec
  ensures parent(r, proof@, *query, options, *grove_version)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_raw
//@ ret r
//@ spec
  ensures match r { Ok((h, x)) => grove_version.grovedb_versions.operations.proof.verify_query_raw == 0 && proof_of(proof@) is Some && ({ let w = inner_raw(proof_of(proof@).unwrap(), *query, opts(false, false, true), *grove_version); w is Some && w.unwrap().0 == h && w.unwrap().2 == x }),
    Err(e) => gated(e, "verify_query_raw"@, grove_version.grovedb_versions.operations.proof.verify_query_raw) }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_query == 0 ==> plain(r, proof@, *query, opts(false, true, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_query != 0 ==> r is Err && gated(r->Err_0, "verify_query"@, grove_version.grovedb_versions.operations.proof.verify_query)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_subset_query == 0 ==> plain(r, proof@, *query, opts(false, false, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_subset_query != 0 ==> r is Err && gated(r->Err_0, "verify_subset_query"@, grove_version.grovedb_versions.operations.proof.verify_subset_query)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_get_parent_tree_info
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_query == 0 ==> parent(r, proof@, *query, opts(false, true, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_query != 0 ==> r is Err && gated(r->Err_0, "verify_query_get_parent_tree_info"@, grove_version.grovedb_versions.operations.proof.verify_query)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query_get_parent_tree_info
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_query == 0 ==> parent(r, proof@, *query, opts(false, false, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_query != 0 ==> r is Err && gated(r->Err_0, "verify_subset_query_get_parent_tree_info"@, grove_version.grovedb_versions.operations.proof.verify_query)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_absence_proof
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_query_with_absence_proof == 0 ==> plain(r, proof@, *query, opts(true, true, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_query_with_absence_proof != 0 ==> r is Err && gated(r->Err_0, "verify_query_with_absence_proof"@, grove_version.grovedb_versions.operations.proof.verify_query_with_absence_proof)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_subset_query_with_absence_proof
//@ ret r
//@ spec
  ensures grove_version.grovedb_versions.operations.proof.verify_subset_query_with_absence_proof == 0 ==> plain(r, proof@, *query, opts(true, false, false), *grove_version),
    grove_version.grovedb_versions.operations.proof.verify_subset_query_with_absence_proof != 0 ==> r is Err && gated(r->Err_0, "verify_subset_query_with_absence_proof"@, grove_version.grovedb_versions.operations.proof.verify_subset_query_with_absence_proof)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::process_chained_path_queries
//@ attr #[verifier::loop_isolation(false)]
//@ rulefirst for path_query_generator in chained_path_queries { $b.. } ==> let mut k: usize = 0; while k < chained_path_queries.len() { let path_query_generator = &chained_path_queries[k]; k += 1; $b }
//@ rulefirst path_query_generator($a..).ok_or($e..,)?; ==> (match path_query_generator($a) { Some(q) => q, None => { return Err(other()); } });
//@ rulefirst results[results.len() - 1].clone() ==> copy(&results[results.len() - 1])
//@ rulefirst new_root_hash != last_root_hash ==> !same_hash(&new_root_hash, &last_root_hash)
//@ ret r
//@ spec
  requires old(results)@.len() > 0, forall|i: int, x: Vec<PathKeyOptionalElementTrio>| 0 <= i < chained_path_queries@.len() ==> #[trigger] call_requires(chained_path_queries@[i], (x,))
  ensures r is Ok ==> final(results)@.len() == old(results)@.len() + chained_path_queries@.len() && final(results)@.take(old(results)@.len() as int) == old(results)@
      && forall|i: int| 0 <= i < chained_path_queries@.len() ==> #[trigger] step(chained_path_queries@[i], final(results)@[old(results)@.len() - 1 + i], final(results)@[old(results)@.len() + i], proof@, last_root_hash, *grove_version)
//@ preloop 1
  let ghost n = results@.len();
  let ghost before = results@;
//@ loop 1
  invariant 0 <= k <= chained_path_queries@.len(), results@.len() == n + k, results@.take(n as int) == before,
    forall|i: int| 0 <= i < k ==> #[trigger] step(chained_path_queries@[i], results@[n - 1 + i], results@[n + i], proof@, last_root_hash, *grove_version),
  decreases chained_path_queries@.len() - k
//@ loopstart 1
  let ghost was = results@;
//@ loopend 1
  proof {
    assert(results@.take(n as int) =~= was.take(n as int));
    assert(step(chained_path_queries@[k - 1], was[n - 1 + k - 1], results@[n + k - 1], proof@, last_root_hash, *grove_version));
    assert forall|i: int| 0 <= i < k implies #[trigger] step(chained_path_queries@[i], results@[n - 1 + i], results@[n + i], proof@, last_root_hash, *grove_version) by { if i < k - 1 { assert(step(chained_path_queries@[i], was[n - 1 + i], was[n + i], proof@, last_root_hash, *grove_version)); } }
  }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_query_with_chained_path_queries
//@ rulefirst vec![] ==> Vec::new()
//@ ret r
//@ spec
  requires forall|i: int, x: Vec<PathKeyOptionalElementTrio>| 0 <= i < chained_path_queries@.len() ==> #[trigger] call_requires(chained_path_queries@[i], (x,))
  ensures ({ let w = grove_version.grovedb_versions.operations.proof.verify_query_with_chained_path_queries;
    (w != 0 ==> r is Err && gated(r->Err_0, "verify_query_with_chained_path_queries"@, w))
    && (r is Ok ==> w == 0 && ({ let (h, x) = r.unwrap(); let f = from_bytes(proof@, *first_query, opts(false, false, false), *grove_version);
        // the first query's answer, and each later query's, under the same root
        f is Some && f.unwrap().0 == h && x@.len() == chained_path_queries@.len() + 1 && x@[0] == f.unwrap().2
        && forall|i: int| 0 <= i < chained_path_queries@.len() ==> #[trigger] step(chained_path_queries@[i], x@[i], x@[i + 1], proof@, h, *grove_version) })) })
//@ after Self::process_chained_path_queries
  proof { assert(results@[0] == results@.take(1)[0]); assert forall|i: int| 0 <= i < chained_path_queries@.len() implies #[trigger] step(chained_path_queries@[i], results@[i], results@[i + 1], proof@, last_root_hash, *grove_version) by { assert(step(chained_path_queries@[i], results@[1 - 1 + i], results@[1 + i], proof@, last_root_hash, *grove_version)); } }
//@ end
}
} // verus!
fn main() {}
