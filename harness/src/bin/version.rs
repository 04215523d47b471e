//! C28: feature versions.
use grovedb::{GroveDb, PathQuery, Query, SizedQuery};
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use grovedb_element::Element;
use grovedb_merk::proofs::query::VerifyOptions;
use grovedb_version::error::GroveVersionError;
use grovedb_version::version::{GROVE_VERSIONS, GroveVersion};
use grovedb_version::{check_grovedb_v0, check_grovedb_v0_or_v1, check_grovedb_v0_or_v1_with_cost, check_grovedb_v0_with_cost, check_merk_v0, check_merk_v0_with_cost};
use verif_harness::*;

type E = GroveVersionError;
const M: &str = "some::method";
fn g0(v: u16) -> Result<u16, E> { check_grovedb_v0!(M, v); Ok(7) }
fn m0(v: u16) -> Result<u16, E> { check_merk_v0!(M, v); Ok(7) }
fn g01(v: u16) -> Result<u16, E> { let x: u16 = check_grovedb_v0_or_v1!(M, v); Ok(7 + x) }
fn g0c(v: u16) -> CostResult<u16, E> { check_grovedb_v0_with_cost!(M, v); Ok(7).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() }) }
fn m0c(v: u16) -> CostResult<u16, E> { check_merk_v0_with_cost!(M, v); Ok(7).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() }) }
fn g01c(v: u16) -> CostResult<u16, E> { check_grovedb_v0_or_v1_with_cost!(M, v); Ok(7).wrap_with_cost(OperationCost { seek_count: 1, ..Default::default() }) }
/// (method, versions known, version received) of a refusal
type Refusal = (String, Vec<u16>, u16);
fn refusal(e: &E) -> Option<Refusal> { match e { GroveVersionError::UnknownVersionMismatch { method, known_versions, received } => Some((method.clone(), known_versions.clone(), *received)), _ => None } }
fn of_g<T>(r: Result<T, grovedb::Error>) -> Option<Refusal> { match r { Err(grovedb::Error::VersionError(e)) => refusal(&e), Err(grovedb::Error::ElementError(grovedb_element::error::ElementError::VersionError(e))) => refusal(&e), _ => None } }
fn of_e<T>(r: Result<T, grovedb_element::error::ElementError>) -> Option<Refusal> { match r { Err(grovedb_element::error::ElementError::VersionError(e)) => refusal(&e), _ => None } }
fn pq(limit: Option<u16>) -> PathQuery { PathQuery::new(vec![b"a".to_vec()], SizedQuery::new(Query::new_single_key(b"k".to_vec()), limit, None)) }

/// a gated call: its method, the table field that gates it, the call, and which other gated methods it goes through
struct Gate { method: &'static str, set: fn(&mut GroveVersion, u16), call: fn(&GroveVersion) -> Option<Refusal>, through: &'static [&'static str] }
const PROOF: &[u8] = &[0];
fn opts() -> VerifyOptions { VerifyOptions { absence_proofs_for_non_existing_searched_keys: false, verify_proof_succinctness: true, include_empty_trees_in_result: false } }
fn gates() -> Vec<Gate> {
    macro_rules! f { ($($p:ident).+) => { |v: &mut GroveVersion, x: u16| v.grovedb_versions.$($p).+ = x } }
    fn none(_: Vec<grovedb::query_result_type::PathKeyOptionalElementTrio>) -> Option<PathQuery> { None }
    vec![
        Gate { method: "Element::serialize", set: f!(element.serialize), call: |v| of_e(Element::new_item(vec![1]).serialize(v)), through: &[] },
        Gate { method: "Element::serialized_size", set: f!(element.serialized_size), call: |v| of_e(Element::new_item(vec![1]).serialized_size(v)), through: &["Element::serialize"] },
        Gate { method: "Element::deserialize", set: f!(element.deserialize), call: |v| of_e(Element::deserialize(&[0, 0, 0], v)), through: &[] },
        Gate { method: "required_item_space", set: f!(element.required_item_space), call: |v| of_e(Element::required_item_space(3, 4, v)), through: &[] },
        Gate { method: "terminal_keys", set: f!(path_query_methods.terminal_keys), call: |v| of_g(pq(None).terminal_keys(10, v)), through: &[] },
        Gate { method: "merge", set: f!(path_query_methods.merge), call: |v| of_g(PathQuery::merge(vec![&pq(None), &PathQuery::new_single_key(vec![], b"z".to_vec())], v)), through: &[] },
        Gate { method: "query_items_at_path", set: f!(path_query_methods.query_items_at_path), call: |v| of_g(pq(None).query_items_at_path(&[b"a"], v).map(|x| x.is_some())), through: &[] },
        Gate { method: "should_add_parent_tree_at_path", set: f!(path_query_methods.should_add_parent_tree_at_path), call: |v| of_g(pq(None).should_add_parent_tree_at_path(&[b"a"], v)), through: &[] },
        Gate { method: "verify_query_with_options", set: f!(operations.proof.verify_query_with_options), call: |v| of_g(GroveDb::verify_query_with_options(PROOF, &pq(Some(1)), opts(), v)), through: &[] },
        Gate { method: "verify_query_get_parent_tree_info_with_options", set: f!(operations.proof.verify_query_get_parent_tree_info_with_options), call: |v| of_g(GroveDb::verify_query_get_parent_tree_info_with_options(PROOF, &pq(Some(1)), opts(), v)), through: &[] },
        Gate { method: "verify_query_raw", set: f!(operations.proof.verify_query_raw), call: |v| of_g(GroveDb::verify_query_raw(PROOF, &pq(Some(1)), v)), through: &[] },
        Gate { method: "verify_query", set: f!(operations.proof.verify_query), call: |v| of_g(GroveDb::verify_query(PROOF, &pq(Some(1)), v)), through: &["verify_query_with_options"] },
        Gate { method: "verify_query_get_parent_tree_info", set: f!(operations.proof.verify_query), call: |v| of_g(GroveDb::verify_query_get_parent_tree_info(PROOF, &pq(Some(1)), v)), through: &["verify_query_get_parent_tree_info_with_options"] },
        Gate { method: "verify_subset_query_get_parent_tree_info", set: f!(operations.proof.verify_query), call: |v| of_g(GroveDb::verify_subset_query_get_parent_tree_info(PROOF, &pq(Some(1)), v)), through: &["verify_query_get_parent_tree_info_with_options"] },
        Gate { method: "verify_subset_query", set: f!(operations.proof.verify_subset_query), call: |v| of_g(GroveDb::verify_subset_query(PROOF, &pq(Some(1)), v)), through: &["verify_query_with_options"] },
        Gate { method: "verify_query_with_absence_proof", set: f!(operations.proof.verify_query_with_absence_proof), call: |v| of_g(GroveDb::verify_query_with_absence_proof(PROOF, &pq(Some(1)), v)), through: &["verify_query_with_options"] },
        Gate { method: "verify_subset_query_with_absence_proof", set: f!(operations.proof.verify_subset_query_with_absence_proof), call: |v| of_g(GroveDb::verify_subset_query_with_absence_proof(PROOF, &pq(Some(1)), v)), through: &["verify_query_with_options"] },
        Gate { method: "verify_query_with_chained_path_queries", set: f!(operations.proof.verify_query_with_chained_path_queries), call: |v| of_g(GroveDb::verify_query_with_chained_path_queries(PROOF, &pq(Some(1)), vec![none], v)), through: &["verify_subset_query", "verify_query_with_options"] },
    ]
}
fn c28(ctx: &mut Ctx) -> R {
    ctx.rule("what a version macro guards runs under exactly the versions it names, at every 16-bit number, and otherwise reports the method, those versions and the number; every gated call does the same with its own field of the table; the table is in order of protocol version and first and latest are its ends");
    for v in 0..=u16::MAX {
        at(format!("version macros at {v}"));
        let cost = |r: CostResult<u16, E>| -> (Result<u16, E>, u32) { (r.value, r.cost.seek_count) };
        for (nm, (r, seeks), known, ok) in [("check_grovedb_v0", (g0(v), 9), vec![0u16], 7u16), ("check_merk_v0", (m0(v), 9), vec![0], 7), ("check_grovedb_v0_or_v1", (g01(v), 9), vec![0, 1], 7 + v.min(2)), ("check_grovedb_v0_with_cost", cost(g0c(v)), vec![0], 7), ("check_merk_v0_with_cost", cost(m0c(v)), vec![0], 7), ("check_grovedb_v0_or_v1_with_cost", cost(g01c(v)), vec![0, 1], 7)] {
            match r {
                Ok(x) => chk!(known.contains(&v) && x == ok && (seeks == 9 || seeks == 1), "{nm} let version {v} through (gave {x})"),
                Err(e) => chk!(!known.contains(&v) && refusal(&e) == Some((M.to_string(), known.clone(), v)) && (seeks == 9 || seeks == 0), "{nm} at version {v} refused with {e:?}"),
            }
        }
        ctx.case(v, true);
    }
    // the table
    chk!(!GROVE_VERSIONS.is_empty(), "no versions");
    for (i, v) in GROVE_VERSIONS.iter().enumerate() { chk!(v.protocol_version as usize == i + 1, "version number {} is in place {}", v.protocol_version, i + 1); }
    chk!(GroveVersion::first().protocol_version == 1, "the first version is {}", GroveVersion::first().protocol_version);
    chk!(GroveVersion::latest().protocol_version as usize == GROVE_VERSIONS.len() && format!("{:?}", GroveVersion::latest()) == format!("{:?}", GROVE_VERSIONS.last().unwrap()), "the latest version is {}", GroveVersion::latest().protocol_version);
    chk!(format!("{:?}", GroveVersion::first()) == format!("{:?}", GROVE_VERSIONS[0]), "the first version is not the first in the table");
    // every gated call, under every version of the table and with each gate closed in turn
    let gs = gates();
    for base in GROVE_VERSIONS { for g in &gs {
        at(format!("{} under protocol version {}", g.method, base.protocol_version));
        let r = (g.call)(base);
        chk!(r.is_none(), "{} is refused under protocol version {}: {r:?}", g.method, base.protocol_version);
        for x in [1u16, 2, 3, 255, 256, 32768, u16::MAX] {
            let mut v = base.clone(); (g.set)(&mut v, x);
            let r = (g.call)(&v);
            chk!(r == Some((g.method.to_string(), vec![0], x)), "{} under its version {x} gave {r:?}", g.method);
            for h in &gs {
                if std::ptr::eq(g, h) { continue; }
                let mut a = base.clone(); (h.set)(&mut a, x);
                let mut b = base.clone(); (g.set)(&mut b, x); (h.set)(&mut b, 0);
                if (g.call)(&b).is_none() { continue; } // the same field gates both
                let r = (g.call)(&a);
                let want = g.through.contains(&h.method).then(|| (h.method.to_string(), vec![0], x));
                chk!(r == want, "{} with {} at version {x} gave {r:?}, not {want:?}", g.method, h.method);
                ctx.case((g.method, h.method, x, base.protocol_version), true);
            }
        }
    } }
    Ok(())
}
fn main() { main_with(&[("C28", c28)]); }
