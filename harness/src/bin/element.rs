//! C16, C17: elements and reference paths.
use grovedb_element::reference_path::{ReferencePathType, path_from_reference_path_type, path_from_reference_qualified_path_type};
use grovedb_element::{Element, ElementType, ProofNodeType};
use grovedb_merk::element::tree_type::ElementTreeTypeExtensions;
use grovedb_merk::{MaybeTree, TreeFeatureType, TreeType};
use grovedb_path::{SubtreePath, SubtreePathBuilder};
use grovedb_version::version::GroveVersion;
use verif_harness::*;

type K = Vec<u8>;
fn cfg() -> impl bincode::config::Config { bincode::config::standard().with_big_endian().with_no_limit() }
fn len_edge(r: &mut Rng) -> usize { match r.below(12) { 0 => 0, 1 => *r.pick(&[250usize, 251, 252, 253, 255, 256, 300, 127, 128]), 2 => 30 + r.us(4), 3 if r.chance(1, 12) => *r.pick(&[65535usize, 65536, 70000]), _ => r.us(6) } }
fn seg(r: &mut Rng) -> K { let n = len_edge(r); if n < 6 && r.coin() { (0..n).map(|_| b'a' + r.below(3) as u8).collect() } else { r.bytes(n) } }
fn path(r: &mut Rng, m: usize) -> Vec<K> { let n = match r.below(40) { 0 => 250 + r.us(10), _ => r.us(m + 1) }; (0..n).map(|_| if n > 20 { vec![1] } else { seg(r) }).collect() }
fn reference(r: &mut Rng) -> ReferencePathType { let k = r.us(7); reference_of(r, k) }
fn reference_of(r: &mut Rng, k: usize) -> ReferencePathType {
    let n = if r.chance(1, 8) { 250 + r.below(6) as u8 } else { r.below(6) as u8 };
    match k {
        0 => ReferencePathType::AbsolutePathReference(path(r, 4)),
        1 => ReferencePathType::UpstreamRootHeightReference(n, path(r, 3)),
        2 => ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, path(r, 3)),
        3 => ReferencePathType::UpstreamFromElementHeightReference(n, path(r, 3)),
        4 => ReferencePathType::CousinReference(seg(r)),
        5 => ReferencePathType::RemovedCousinReference(path(r, 3)),
        _ => ReferencePathType::SiblingReference(seg(r)),
    }
}
fn sum(r: &mut Rng) -> i64 { match r.below(4) { 0 => i64::MIN.wrapping_add(r.below(3) as i64), 1 => i64::MAX - r.below(3) as i64, 2 => -(r.below(300) as i64), _ => r.edge() as i64 } }
fn big(r: &mut Rng) -> i128 { match r.below(5) { 0 => i128::MIN + r.below(3) as i128, 1 => i128::MAX - r.below(3) as i128, 2 => sum(r) as i128, 3 => -(r.edge() as i128) * 3, _ => ((r.next() as i128) << 64) + r.next() as i128 } }
fn flags(r: &mut Rng) -> Option<K> { if r.coin() { None } else { Some(seg(r)) } }

/// what an element is, written down before it is built
#[derive(Clone, Debug, PartialEq, Default)]
struct Parts { n: u8, item: Option<K>, root: Option<Option<K>>, count: Option<u64>, sum: Option<i64>, big: Option<i128>, entries: Option<u64>, par: Option<u8>, reference: Option<ReferencePathType>, hop: Option<u8>, flags: Option<K> }
const COUNTED: [u8; 4] = [6, 7, 8, 10];
const SUMMED: [u8; 5] = [3, 4, 7, 9, 10];
fn gen_parts(r: &mut Rng, n: u8) -> Parts {
    let mut p = Parts { n, flags: flags(r), ..Default::default() };
    if n == 0 || n == 9 { p.item = Some(seg(r)); }
    if n == 1 { p.reference = Some(reference(r)); p.hop = if r.coin() { None } else { Some(r.edge() as u8) }; }
    if n == 2 || (4..=8).contains(&n) || n == 10 { p.root = Some(if r.coin() { None } else { Some(seg(r)) }); }
    if COUNTED.contains(&n) { p.count = Some(r.edge()); }
    if SUMMED.contains(&n) { p.sum = Some(sum(r)); }
    if n == 5 { p.big = Some(big(r)); }
    if n >= 11 { p.entries = Some(if n == 14 { r.edge() as u16 as u64 } else { r.edge() }); }
    if [11, 13, 14].contains(&n) { p.par = Some(r.edge() as u8); }
    p
}
fn build(p: &Parts) -> Element {
    let p = p.clone();
    match p.n {
        0 => Element::Item(p.item.unwrap(), p.flags), 1 => Element::Reference(p.reference.unwrap(), p.hop, p.flags), 2 => Element::Tree(p.root.unwrap(), p.flags), 3 => Element::SumItem(p.sum.unwrap(), p.flags),
        4 => Element::SumTree(p.root.unwrap(), p.sum.unwrap(), p.flags), 5 => Element::BigSumTree(p.root.unwrap(), p.big.unwrap(), p.flags), 6 => Element::CountTree(p.root.unwrap(), p.count.unwrap(), p.flags),
        7 => Element::CountSumTree(p.root.unwrap(), p.count.unwrap(), p.sum.unwrap(), p.flags), 8 => Element::ProvableCountTree(p.root.unwrap(), p.count.unwrap(), p.flags), 9 => Element::ItemWithSumItem(p.item.unwrap(), p.sum.unwrap(), p.flags),
        10 => Element::ProvableCountSumTree(p.root.unwrap(), p.count.unwrap(), p.sum.unwrap(), p.flags), 11 => Element::CommitmentTree(p.entries.unwrap(), p.par.unwrap(), p.flags), 12 => Element::MmrTree(p.entries.unwrap(), p.flags),
        13 => Element::BulkAppendTree(p.entries.unwrap(), p.par.unwrap(), p.flags), _ => Element::DenseAppendOnlyFixedSizeTree(p.entries.unwrap() as u16, p.par.unwrap(), p.flags),
    }
}
/// read back with the variant alone
fn read(e: &Element) -> Parts {
    let mut p = Parts::default();
    match e.clone() {
        Element::Item(v, f) => { p.n = 0; p.item = Some(v); p.flags = f }
        Element::Reference(q, h, f) => { p.n = 1; p.reference = Some(q); p.hop = h; p.flags = f }
        Element::Tree(k, f) => { p.n = 2; p.root = Some(k); p.flags = f }
        Element::SumItem(s, f) => { p.n = 3; p.sum = Some(s); p.flags = f }
        Element::SumTree(k, s, f) => { p.n = 4; p.root = Some(k); p.sum = Some(s); p.flags = f }
        Element::BigSumTree(k, s, f) => { p.n = 5; p.root = Some(k); p.big = Some(s); p.flags = f }
        Element::CountTree(k, c, f) => { p.n = 6; p.root = Some(k); p.count = Some(c); p.flags = f }
        Element::CountSumTree(k, c, s, f) => { p.n = 7; p.root = Some(k); p.count = Some(c); p.sum = Some(s); p.flags = f }
        Element::ProvableCountTree(k, c, f) => { p.n = 8; p.root = Some(k); p.count = Some(c); p.flags = f }
        Element::ItemWithSumItem(v, s, f) => { p.n = 9; p.item = Some(v); p.sum = Some(s); p.flags = f }
        Element::ProvableCountSumTree(k, c, s, f) => { p.n = 10; p.root = Some(k); p.count = Some(c); p.sum = Some(s); p.flags = f }
        Element::CommitmentTree(c, q, f) => { p.n = 11; p.entries = Some(c); p.par = Some(q); p.flags = f }
        Element::MmrTree(c, f) => { p.n = 12; p.entries = Some(c); p.flags = f }
        Element::BulkAppendTree(c, q, f) => { p.n = 13; p.entries = Some(c); p.par = Some(q); p.flags = f }
        Element::DenseAppendOnlyFixedSizeTree(c, q, f) => { p.n = 14; p.entries = Some(c as u64); p.par = Some(q); p.flags = f }
    }
    p
}
const TYPES: [ElementType; 15] = [ElementType::Item, ElementType::Reference, ElementType::Tree, ElementType::SumItem, ElementType::SumTree, ElementType::BigSumTree, ElementType::CountTree, ElementType::CountSumTree, ElementType::ProvableCountTree, ElementType::ItemWithSumItem, ElementType::ProvableCountSumTree, ElementType::CommitmentTree, ElementType::MmrTree, ElementType::BulkAppendTree, ElementType::DenseAppendOnlyFixedSizeTree];
fn is_tree(n: u8) -> bool { n == 2 || (4..=8).contains(&n) || n >= 10 }
fn is_item(n: u8) -> bool { matches!(n, 0 | 3 | 9) }
fn tree_type(p: &Parts) -> Option<TreeType> {
    Some(match p.n { 2 => TreeType::NormalTree, 4 => TreeType::SumTree, 5 => TreeType::BigSumTree, 6 => TreeType::CountTree, 7 => TreeType::CountSumTree, 8 => TreeType::ProvableCountTree, 10 => TreeType::ProvableCountSumTree, 11 => TreeType::CommitmentTree(p.par?), 12 => TreeType::MmrTree, 13 => TreeType::BulkAppendTree(p.par?), 14 => TreeType::DenseAppendOnlyFixedSizeTree(p.par?), _ => return None })
}
fn feature(t: &TreeType, p: &Parts) -> TreeFeatureType {
    let (s, c) = (p.sum.unwrap_or(0), p.count.unwrap_or(1));
    match t {
        TreeType::SumTree => TreeFeatureType::SummedMerkNode(s), TreeType::BigSumTree => TreeFeatureType::BigSummedMerkNode(p.big.unwrap_or(s as i128)), TreeType::CountTree => TreeFeatureType::CountedMerkNode(c), TreeType::CountSumTree => TreeFeatureType::CountedSummedMerkNode(c, s),
        TreeType::ProvableCountTree => TreeFeatureType::ProvableCountedMerkNode(c), TreeType::ProvableCountSumTree => TreeFeatureType::ProvableCountedSummedMerkNode(c, s), _ => TreeFeatureType::BasicMerkNode,
    }
}
fn all_tree_types() -> Vec<TreeType> { vec![TreeType::NormalTree, TreeType::SumTree, TreeType::BigSumTree, TreeType::CountTree, TreeType::CountSumTree, TreeType::ProvableCountTree, TreeType::ProvableCountSumTree, TreeType::CommitmentTree(3), TreeType::MmrTree, TreeType::BulkAppendTree(4), TreeType::DenseAppendOnlyFixedSizeTree(5)] }

fn accessors(p: &Parts) -> R {
    let e = build(p); let n = p.n;
    chk!(read(&e) == *p, "building {p:?} gave {e:?}");
    let t = e.element_type();
    chk!(t as u8 == n && t == TYPES[n as usize], "{e:?} is of type {t:?}");
    chk!(!e.type_str().is_empty(), "no type name for {e:?}");
    macro_rules! same { ($l:expr, $r:expr, $w:expr) => { { let (l, r) = ($l, $r); chk!(l == r, "{} of {e:?} is {l:?}, but should be {r:?}", $w); } } }
    same!(e.sum_value_or_default(), p.sum.unwrap_or(0), "sum");
    same!(e.count_value_or_default(), p.count.unwrap_or(1), "count");
    same!(e.count_sum_value_or_default(), (p.count.unwrap_or(1), p.sum.unwrap_or(0)), "count and sum");
    same!(e.big_sum_value_or_default(), p.big.unwrap_or(p.sum.unwrap_or(0) as i128), "big sum");
    let si = if is_item(n) { p.sum } else { None };
    same!(e.as_sum_item_value().ok(), si, "as_sum_item_value"); same!(e.clone().into_sum_item_value().ok(), si, "into_sum_item_value");
    let st = if n == 4 { p.sum } else { None };
    same!(e.as_sum_tree_value().ok(), st, "as_sum_tree_value"); same!(e.clone().into_sum_tree_value().ok(), st, "into_sum_tree_value");
    same!(e.as_item_bytes().ok().map(|x| x.to_vec()), p.item.clone(), "as_item_bytes"); same!(e.clone().into_item_bytes().ok(), p.item.clone(), "into_item_bytes");
    same!(e.clone().into_reference_path_type().ok(), p.reference.clone(), "into_reference_path_type");
    for (got, want, w) in [(e.is_sum_tree(), n == 4, "is_sum_tree"), (e.is_big_sum_tree(), n == 5, "is_big_sum_tree"), (e.is_basic_tree(), n == 2, "is_basic_tree"), (e.is_any_tree(), is_tree(n), "is_any_tree"), (e.is_commitment_tree(), n == 11, "is_commitment_tree"), (e.is_mmr_tree(), n == 12, "is_mmr_tree"),
        (e.is_bulk_append_tree(), n == 13, "is_bulk_append_tree"), (e.is_dense_tree(), n == 14, "is_dense_tree"), (e.uses_non_merk_data_storage(), n >= 11, "uses_non_merk_data_storage"), (e.is_reference(), n == 1, "is_reference"), (e.is_any_item(), is_item(n), "is_any_item"), (e.is_basic_item(), n == 0, "is_basic_item"),
        (e.has_basic_item(), n == 0 || n == 9, "has_basic_item"), (e.is_sum_item(), n == 3 || n == 9, "is_sum_item"), (e.is_item_with_sum_item(), n == 9, "is_item_with_sum_item"),
        (t.is_tree(), is_tree(n), "type is_tree"), (t.is_item(), is_item(n), "type is_item"), (t.is_reference(), n == 1, "type is_reference"), (t.has_simple_value_hash(), is_item(n), "has_simple_value_hash"), (t.has_combined_value_hash(), !is_item(n), "has_combined_value_hash"),
        (e.is_non_empty_merk_tree(), matches!(p.root, Some(Some(_))), "is_non_empty_merk_tree"), (e.is_non_empty_tree(), n >= 11 || matches!(p.root, Some(Some(_))), "is_non_empty_tree")] { same!(got, want, w); }
    same!(e.non_merk_entry_count(), p.entries, "non_merk_entry_count");
    same!(e.get_flags().clone(), p.flags.clone(), "flags"); same!(e.clone().get_flags_owned(), p.flags.clone(), "owned flags");
    for nf in [None, Some(vec![7u8, 8])] {
        let mut a = e.clone(); a.set_flags(nf.clone());
        let mut b = e.clone(); *b.get_flags_mut() = nf.clone();
        let want = Parts { flags: nf, ..p.clone() };
        same!(read(&a), want.clone(), "after set_flags"); same!(read(&b), want, "after changing the flags in place");
    }
    // tree classification
    let tt = tree_type(p); let rk = p.root.clone().flatten();
    same!(e.tree_type(), tt, "tree_type");
    same!(e.clone().root_key_and_tree_type_owned(), tt.map(|t| (rk.clone(), t)), "root_key_and_tree_type_owned");
    same!(e.root_key_and_tree_type().map(|(k, t)| (k.clone(), t)), tt.map(|t| (rk.clone(), t)), "root_key_and_tree_type");
    same!(e.tree_flags_and_type().map(|(f, t)| (f.clone(), t)), tt.map(|t| (p.flags.clone(), t)), "tree_flags_and_type");
    same!(match e.maybe_tree_type() { MaybeTree::Tree(t) => Some(t), MaybeTree::NotTree => None }, tt, "maybe_tree_type");
    same!(e.tree_feature_type(), tt.map(|t| feature(&t, p)), "tree_feature_type");
    for t in all_tree_types() { same!(e.get_feature_type(t).ok(), Some(feature(&t, p)), format!("feature type under {t:?}")); }
    if let Some(t) = tt { same!(t.to_element_type(), Some(TYPES[n as usize]), "to_element_type"); same!(t.uses_non_merk_data_storage(), n >= 11, "tree type uses_non_merk_data_storage"); }
    for par in std::iter::once(None).chain(TYPES.into_iter().map(Some)) {
        let c = matches!(par, Some(ElementType::ProvableCountTree) | Some(ElementType::ProvableCountSumTree));
        let want = match (is_item(n), n == 1) { (true, _) => if c { ProofNodeType::KvCount } else { ProofNodeType::Kv }, (_, true) => if c { ProofNodeType::KvRefValueHashCount } else { ProofNodeType::KvRefValueHash }, _ => if c { ProofNodeType::KvValueHashFeatureType } else { ProofNodeType::KvValueHash } };
        same!(t.proof_node_type(par), want, format!("proof node type under {par:?}"));
    }
    Ok(())
}
fn constructors(p: &Parts) -> R {
    let q = p.clone(); let f = q.flags.clone(); let n = p.n;
    let root = q.root.clone().flatten();
    let (s, c) = (q.sum.unwrap_or(0), q.count.unwrap_or(0));
    // (built, flags expected, root key expected, whether the sums and counts are kept)
    let mut v: Vec<(&str, Element, Option<K>, Option<K>, bool)> = vec![];
    macro_rules! trees { ($e:ident, $ef:ident, $n:ident, $nf:ident) => {{
        v.push((stringify!($e), Element::$e(), None, None, false)); v.push((stringify!($ef), Element::$ef(f.clone()), f.clone(), None, false));
        v.push((stringify!($n), Element::$n(root.clone()), None, root.clone(), false)); v.push((stringify!($nf), Element::$nf(root.clone(), f.clone()), f.clone(), root.clone(), false));
    }} }
    match n {
        0 => { let i = q.item.clone().unwrap(); v.push(("new_item", Element::new_item(i.clone()), None, None, true)); v.push(("new_item_with_flags", Element::new_item_with_flags(i, f.clone()), f.clone(), None, true)); }
        1 => { let x = q.reference.clone().unwrap();
            for (nm, e, hop, fl) in [("new_reference", Element::new_reference(x.clone()), None, None), ("new_reference_with_flags", Element::new_reference_with_flags(x.clone(), f.clone()), None, f.clone()), ("new_reference_with_hops", Element::new_reference_with_hops(x.clone(), q.hop), q.hop, None), ("new_reference_with_max_hops_and_flags", Element::new_reference_with_max_hops_and_flags(x.clone(), q.hop, f.clone()), q.hop, f.clone())] {
                chk!(read(&e) == Parts { hop, flags: fl, ..p.clone() }, "{nm} built {e:?}"); } }
        2 => trees!(empty_tree, empty_tree_with_flags, new_tree, new_tree_with_flags),
        3 => { v.push(("new_sum_item", Element::new_sum_item(s), None, None, true)); v.push(("new_sum_item_with_flags", Element::new_sum_item_with_flags(s, f.clone()), f.clone(), None, true)); }
        4 => { trees!(empty_sum_tree, empty_sum_tree_with_flags, new_sum_tree, new_sum_tree_with_flags); v.push(("new_sum_tree_with_flags_and_sum_value", Element::new_sum_tree_with_flags_and_sum_value(root.clone(), s, f.clone()), f.clone(), root.clone(), true)); }
        5 => { trees!(empty_big_sum_tree, empty_big_sum_tree_with_flags, new_big_sum_tree, new_big_sum_tree_with_flags); v.push(("new_big_sum_tree_with_flags_and_sum_value", Element::new_big_sum_tree_with_flags_and_sum_value(root.clone(), q.big.unwrap(), f.clone()), f.clone(), root.clone(), true)); }
        6 => { trees!(empty_count_tree, empty_count_tree_with_flags, new_count_tree, new_count_tree_with_flags); v.push(("new_count_tree_with_flags_and_count_value", Element::new_count_tree_with_flags_and_count_value(root.clone(), c, f.clone()), f.clone(), root.clone(), true)); }
        7 => { trees!(empty_count_sum_tree, empty_count_sum_tree_with_flags, new_count_sum_tree, new_count_sum_tree_with_flags); v.push(("new_count_sum_tree_with_flags_and_sum_and_count_value", Element::new_count_sum_tree_with_flags_and_sum_and_count_value(root.clone(), c, s, f.clone()), f.clone(), root.clone(), true)); }
        8 => { trees!(empty_provable_count_tree, empty_provable_count_tree_with_flags, new_provable_count_tree, new_provable_count_tree_with_flags); v.push(("new_provable_count_tree_with_flags_and_count_value", Element::new_provable_count_tree_with_flags_and_count_value(root.clone(), c, f.clone()), f.clone(), root.clone(), true)); }
        9 => { let i = q.item.clone().unwrap(); v.push(("new_item_with_sum_item", Element::new_item_with_sum_item(i.clone(), s), None, None, true)); v.push(("new_item_with_sum_item_with_flags", Element::new_item_with_sum_item_with_flags(i, s, f.clone()), f.clone(), None, true)); }
        10 => { trees!(empty_provable_count_sum_tree, empty_provable_count_sum_tree_with_flags, new_provable_count_sum_tree, new_provable_count_sum_tree_with_flags); v.push(("new_provable_count_sum_tree_with_flags_and_sum_and_count_value", Element::new_provable_count_sum_tree_with_flags_and_sum_and_count_value(root.clone(), c, s, f.clone()), f.clone(), root.clone(), true)); }
        11 | 13 => {
            let par = q.par.unwrap();
            let (a, b, full) = if n == 11 { (Element::empty_commitment_tree(par), Element::empty_commitment_tree_with_flags(par, f.clone()), Element::new_commitment_tree(q.entries.unwrap(), par, f.clone())) } else { (Element::empty_bulk_append_tree(par), Element::empty_bulk_append_tree_with_flags(par, f.clone()), Element::new_bulk_append_tree(q.entries.unwrap(), par, f.clone())) };
            chk!(read(&full) == *p, "building {p:?} gave {full:?}");
            for (e, fl) in [(a, None), (b, f.clone())] { match e { Ok(e) => chk!(par <= 31 && read(&e) == Parts { entries: Some(0), flags: fl, ..p.clone() }, "an empty tree of chunk power {par} came out as {e:?}"), Err(_) => chk!(par > 31, "chunk power {par} refused") } }
        }
        12 => { for (e, want) in [(Element::empty_mmr_tree(), Parts { entries: Some(0), flags: None, ..p.clone() }), (Element::empty_mmr_tree_with_flags(f.clone()), Parts { entries: Some(0), ..p.clone() }), (Element::new_mmr_tree(q.entries.unwrap(), f.clone()), p.clone())] { chk!(read(&e) == want, "built {e:?}, not {want:?}"); } }
        _ => { let h = q.par.unwrap(); for (e, want) in [(Element::empty_dense_tree(h), Parts { entries: Some(0), flags: None, ..p.clone() }), (Element::empty_dense_tree_with_flags(h, f.clone()), Parts { entries: Some(0), ..p.clone() }), (Element::new_dense_tree(q.entries.unwrap() as u16, h, f.clone()), p.clone())] { chk!(read(&e) == want, "built {e:?}, not {want:?}"); } }
    }
    for (nm, e, fl, root, keep) in v {
        let z = Parts { flags: fl, root: p.root.as_ref().map(|_| root), sum: p.sum.map(|x| if keep { x } else { 0 }), count: p.count.map(|x| if keep { x } else { 0 }), big: p.big.map(|x| if keep { x } else { 0 }), ..p.clone() };
        chk!(read(&e) == z, "{nm} built {e:?}, not {z:?}");
    }
    Ok(())
}
fn round_trip(e: &Element, gv: &GroveVersion) -> Result<K, Fail> {
    let b = match e.serialize(gv) { Ok(b) => b, Err(x) => fail!("{e:?} could not be serialized: {x}") };
    let size = e.serialized_size(gv);
    chk!(size.as_ref().ok() == Some(&b.len()), "{e:?} was predicted to take {size:?} bytes and took {}", b.len());
    let t = ElementType::from_serialized_value(&b);
    chk!(t.as_ref().ok() == Some(&e.element_type()), "the first byte of {} says {t:?}, but the element is {:?}", hx(&b), e.element_type());
    let back = Element::deserialize(&b, gv);
    chk!(back.as_ref().ok() == Some(e), "{e:?} came back from {} as {back:?}", hx(&b[..b.len().min(200)]));
    Ok(b)
}
fn versions() -> Vec<GroveVersion> { grovedb_version::version::GROVE_VERSIONS.to_vec() }
fn c16(ctx: &mut Ctx) -> R {
    ctx.rule("an element is its variant with its fields: serializing gives bytes of the predicted length whose first byte is its type and which deserialize to it, every accessor reads the field it names, and any bytes deserialize to an element that survives again or are refused");
    let mut r = ctx.rng.clone(); let vs = versions();
    // types and tree types by number
    for b in 0..=255u8 {
        let t = ElementType::try_from(b);
        chk!(t.as_ref().ok() == TYPES.get(b as usize), "type number {b} is {t:?}");
        chk!(ElementType::from_serialized_value(&[b, 1, 2]).ok() == t.ok(), "first byte {b} is read differently from type number {b}");
        let t = TreeType::try_from(b);
        chk!(t.is_ok() == (b <= 10), "tree type number {b}: {t:?}");
        if let Ok(t) = t { chk!(t.discriminant() == b && std::mem::discriminant(&t) == std::mem::discriminant(&all_tree_types()[b as usize]), "tree type number {b} came out as {t:?}"); }
    }
    chk!(ElementType::from_serialized_value(&[]).is_err(), "no bytes have a type");
    for (i, t) in all_tree_types().iter().enumerate() {
        chk!(t.discriminant() as usize == i, "{t:?} is number {}", t.discriminant());
        chk!(t.allows_sum_item() == matches!(i, 1 | 2 | 4 | 6), "{t:?} allows sum items: {}", t.allows_sum_item());
        let empty = Parts { count: Some(0), ..Default::default() };
        chk!(t.empty_tree_feature_type() == feature(t, &empty), "empty feature of {t:?}");
    }
    for i in 0..ctx.n(25000) {
        if ctx.out_of_time() { break; }
        let p = gen_parts(&mut r, (i % 15) as u8);
        at(format!("accessors and constructors of {p:?}"));
        accessors(&p)?; constructors(&p)?;
        let e = build(&p);
        at(format!("serialization of {e:?}"));
        let mut bytes = vec![];
        for v in &vs { bytes = round_trip(&e, v)?; }
        ctx.case(&format!("{p:?}"), true);
        // damaged bytes
        for _ in 0..4 {
            let mut b = bytes.clone();
            match r.below(4) {
                0 => { let n = r.us(b.len() + 1); b.truncate(n); }
                1 => { let n = 1 + r.us(3); for _ in 0..n { let i = r.us(b.len()); b[i] = *r.pick(&[0u8, 1, 2, 250, 251, 252, 253, 254, 255, 16]); } }
                2 => { let i = r.us(b.len() + 1); let l = if r.coin() { let mut x = vec![253u8]; x.extend((r.edge()).to_be_bytes()); x } else { vec![252, r.next() as u8, 255, 255, 255] }; b.splice(i..i, l); }
                _ => { let n = r.us(14); b = r.bytes(n); if n > 0 && r.chance(3, 4) { b[0] %= 16; } }
            }
            at(format!("deserializing {}", hx(&b[..b.len().min(200)])));
            if let Ok(e) = Element::deserialize(&b, &vs[0]) {
                // (a type number written wider than needed is read too; its first byte is then no type)
                if let Ok(t) = ElementType::from_serialized_value(&b) { chk!(e.element_type() == t, "{} deserialized to {e:?} and is of type {t:?}", hx(&b)); }
                round_trip(&e, &vs[0])?;
            }
        }
    }
    // lengths that cannot be
    for n in 0..15u8 {
        for l in [1u64 << 28, (1 << 32) - 1, 1 << 40, 1 << 62, u64::MAX] {
            for pre in [vec![n], vec![n, 1], vec![n, 0], vec![n, 0, 1], vec![n, 2, 1], vec![n, 0, 0, 1], vec![n, 0, 1, 1]] {
                let mut b = pre; b.push(253); b.extend(l.to_be_bytes());
                at(format!("deserializing {}", hx(&b)));
                if let Ok(e) = Element::deserialize(&b, &vs[0]) { round_trip(&e, &vs[0])?; }
                ctx.case(&b, true);
            }
        }
    }
    for n in if ctx.thorough { vec![1usize << 20, (8 << 20) - 20, (8 << 20) + 20, 300 << 20] } else { vec![(8 << 20) + 20] } { { at(format!("an item of {n} bytes")); round_trip(&Element::Item(vec![3; n], None), &vs[0]).map_err(|_| Fail(format!("an item of {n} bytes did not survive")))?; } }
    // versions
    for bad in [1u16, 2, u16::MAX] {
        let e = Element::new_item(vec![1]); let good = e.serialize(&vs[0]).unwrap();
        let mut v = vs[0].clone(); v.grovedb_versions.element.serialize = bad; chk!(e.serialize(&v).is_err() && e.serialized_size(&v).is_err(), "serialize runs under version {bad}");
        let mut v = vs[0].clone(); v.grovedb_versions.element.serialized_size = bad; chk!(e.serialized_size(&v).is_err() && e.serialize(&v).is_ok(), "serialized_size runs under version {bad}");
        let mut v = vs[0].clone(); v.grovedb_versions.element.deserialize = bad; chk!(Element::deserialize(&good, &v).is_err(), "deserialize runs under version {bad}");
    }
    // space for an item
    for _ in 0..ctx.n(300) {
        let (l, f) = ((r.edge() % (1 << 30)) as u32, (r.edge() % (1 << 30)) as u32);
        at(format!("required_item_space({l}, {f})"));
        let sz = |x: u32| { let mut n = 1; let mut y = x; while y >= 128 { y >>= 7; n += 1; } n };
        let got = Element::required_item_space(l, f, &vs[0]).ok();
        chk!(got == Some(l + sz(l) + f + sz(f) + 1), "required_item_space({l}, {f}) = {got:?}");
    }
    Ok(())
}

// ---- references -----------------------------------------------------------------
fn resolve(r: &ReferencePathType, p: &[K], key: Option<&K>) -> Option<Vec<K>> {
    let cat = |a: &[K], b: &[K]| { let mut v = a.to_vec(); v.extend_from_slice(b); v };
    Some(match r {
        ReferencePathType::AbsolutePathReference(q) => q.clone(),
        ReferencePathType::UpstreamRootHeightReference(n, q) => cat(p.get(..*n as usize)?, q),
        ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, q) => { let last = p.last()?; cat(&cat(p.get(..*n as usize)?, q), &[last.clone()]) }
        ReferencePathType::UpstreamFromElementHeightReference(n, q) => cat(&p[..p.len().checked_sub(*n as usize)?], q),
        ReferencePathType::CousinReference(c) => { let (_, up) = p.split_last()?; cat(up, &[c.clone(), key?.clone()]) }
        ReferencePathType::RemovedCousinReference(c) => { let (_, up) = p.split_last()?; cat(&cat(up, c), &[key?.clone()]) }
        ReferencePathType::SiblingReference(k) => cat(p, &[k.clone()]),
    })
}
/// what serialized_size is known to predict: no count of segments, and LEB128 lengths
fn known_size(r: &ReferencePathType) -> usize {
    let leb = |mut n: usize| { let mut c = 1; while n >= 128 { n >>= 7; c += 1; } c };
    let segs = |v: &[K]| v.iter().map(|s| s.len() + leb(s.len())).sum::<usize>();
    match r { ReferencePathType::AbsolutePathReference(v) | ReferencePathType::RemovedCousinReference(v) => 1 + segs(v), ReferencePathType::CousinReference(k) | ReferencePathType::SiblingReference(k) => 1 + k.len() + leb(k.len()),
        ReferencePathType::UpstreamRootHeightReference(_, v) | ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(_, v) | ReferencePathType::UpstreamFromElementHeightReference(_, v) => 2 + segs(v) }
}
fn c17(ctx: &mut Ctx) -> R {
    ctx.rule("a reference resolves, through every entry point and from every location, to the path its kind documents or is refused for want of segments or key; inverted it resolves back to where it was; it survives encoding");
    let mut r = ctx.rng.clone(); let excuse = ctx.known("reference-serialized-size");
    let mut cases: Vec<(ReferencePathType, Vec<K>, K)> = vec![];
    // every kind, height 0..=5, path of 0..=5 segments, 0..=3 appended
    for k in 0..7usize { for n in 0..=5u8 { for len in 0..=5usize { for app in 0..=3usize {
        let p: Vec<K> = (0..len).map(|i| vec![b'a' + i as u8]).collect(); let q: Vec<K> = (0..app).map(|i| vec![b'x', i as u8]).collect();
        let rf = match k { 0 => ReferencePathType::AbsolutePathReference(q), 1 => ReferencePathType::UpstreamRootHeightReference(n, q), 2 => ReferencePathType::UpstreamRootHeightWithParentPathAdditionReference(n, q), 3 => ReferencePathType::UpstreamFromElementHeightReference(n, q), 4 => ReferencePathType::CousinReference(vec![b'x'; app]), 5 => ReferencePathType::RemovedCousinReference(q), _ => ReferencePathType::SiblingReference(vec![b'x'; app]) };
        cases.push((rf, p, b"key".to_vec()));
    } } } }
    for _ in 0..ctx.n(15000) { let k = r.us(7); let rf = reference_of(&mut r, k); let p = path(&mut r, 6); let key = seg(&mut r); cases.push((rf, p, key)); }
    for (rf, p, key) in cases {
        if ctx.out_of_time() { break; }
        at(format!("{rf:?} from {p:?} key {key:?}"));
        let want = resolve(&rf, &p, Some(&key));
        ctx.case(&format!("{rf:?}{p:?}{key:?}"), want.is_some());
        let refs: Vec<&[u8]> = p.iter().map(|x| x.as_slice()).collect();
        macro_rules! same { ($e:expr, $w:expr) => { { let g = $e; chk!(g.as_ref().ok() == want.as_ref(), "{}: {rf:?} at path {p:?} key {} resolves to {g:?}, but should to {want:?}", $w, hx(&key)); } } }
        same!(path_from_reference_path_type(rf.clone(), &refs, Some(&key)), "path_from_reference_path_type");
        same!(rf.clone().absolute_path(&p, Some(&key)), "absolute_path");
        let mut q = p.clone(); q.push(key.clone());
        same!(path_from_reference_qualified_path_type(rf.clone(), &q), "path_from_reference_qualified_path_type");
        same!(rf.clone().absolute_path_using_current_qualified_path(&q), "absolute_path_using_current_qualified_path");
        same!(rf.clone().absolute_qualified_path(SubtreePathBuilder::<K>::owned_from_iter(p.iter()), &key).map(|b| b.to_vec()), "absolute_qualified_path");
        // a builder on top of a borrowed path
        let cut = r.us(p.len() + 1);
        let mut b = SubtreePath::from(&refs[..cut]).derive_owned(); for s in &p[cut..] { b.push_segment(s); }
        same!(rf.clone().absolute_qualified_path(b, &key).map(|b| b.to_vec()), "absolute_qualified_path (derived path)");
        let wk = resolve(&rf, &p, None);
        let g = path_from_reference_path_type(rf.clone(), &p, None);
        chk!(g.as_ref().ok() == wk.as_ref(), "without a key {rf:?} at {p:?} resolves to {g:?}, but should to {wk:?}");
        // as an element
        let e = Element::new_reference_with_max_hops_and_flags(rf.clone(), Some(3), Some(vec![9]));
        let c = e.clone().convert_if_reference_to_absolute_reference(&refs, Some(&key));
        match (&c, &want) {
            (Ok(Element::Reference(ReferencePathType::AbsolutePathReference(x), Some(3), Some(f))), Some(w)) if x == w && *f == vec![9] => {}
            (Err(_), None) => {}
            _ => fail!("{rf:?} at {p:?} key {} made absolute: {c:?}, should be {want:?}", hx(&key)),
        }
        let other = Element::new_item(key.clone());
        chk!(other.clone().convert_if_reference_to_absolute_reference(&refs, Some(&key)).ok() == Some(other), "an item changed when made absolute");
        // inverse: what it resolves to from the target is the origin
        if let Some(w) = &want && let Some((tk, tp)) = w.split_last() {
            if let Some(inv) = rf.invert(SubtreePath::from(&refs[..]), &key) {
                let back = resolve(&inv, tp, Some(tk));
                chk!(back.as_ref() == Some(&q), "{rf:?} at {p:?} key {} points to {w:?}; its inverse {inv:?} points from there to {back:?}", hx(&key));
            }
        } else { let _ = rf.invert(SubtreePath::from(&refs[..]), &key); }
        // encoding
        let b = match bincode::encode_to_vec(&rf, cfg()) { Ok(b) => b, Err(e) => fail!("{rf:?} could not be encoded: {e}") };
        let d: Result<(ReferencePathType, usize), _> = bincode::decode_from_slice(&b, cfg());
        match d { Ok((x, n)) if x == rf && n == b.len() => {} d => fail!("{rf:?} came back as {d:?}") }
        let sz = rf.serialized_size();
        chk!(sz == b.len() || (excuse && sz == known_size(&rf)), "{rf:?} was predicted to take {sz} bytes and took {}", b.len());
    }
    chk!(path_from_reference_qualified_path_type(ReferencePathType::SiblingReference(vec![1]), &[] as &[K]).is_err(), "resolved from no location at all");
    Ok(())
}
fn main() { main_with(&[("C16", c16), ("C17", c17)]); }
