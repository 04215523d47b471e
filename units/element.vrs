// C16: what elements are. grovedb-element/src/element/*.rs, grovedb-element/src/element_type.rs, merk/src/element/tree_type.rs, merk/src/tree_type/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct ElementError { x: u8 }
#[verifier::external_body] pub fn err() -> (r: ElementError) { unimplemented!() }
pub type Error = ElementError;
#[verifier::external_body] pub fn clone_of<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub type ElementFlags = Vec<u8>;
pub type MaxReferenceHop = Option<u8>;
pub type SumValue = i64;
pub type BigSumValue = i128;
pub type CountValue = u64;
//@ rules
ElementError::$v($x..) ==> err()
Error::$v($x..) ==> err()
$x.first().ok_or_else(|| { $b.. })? ==> (match $x.first() { Some(f) => f, None => { return Err(err()); } })
(&NONE_ROOT_KEY, ==> (no_root_key(),
const NONE_ROOT_KEY: Option<Vec<u8>> = None; ==>
//@ end
#[verifier::external_body] pub fn no_root_key() -> (r: &'static Option<Vec<u8>>) ensures *r == None::<Vec<u8>> { unimplemented!() }
//@ type grovedb-element/src/reference_path/mod.rs ReferencePathType
//@ type grovedb-element/src/element/mod.rs Element
//@ type grovedb-element/src/element_type.rs ElementType
//@ type grovedb-element/src/element_type.rs ProofNodeType
//@ type merk/src/tree_type/mod.rs TreeType
//@ type merk/src/tree_type/mod.rs MaybeTree
//@ type grovedb-query/src/proofs/tree_feature_type.rs TreeFeatureType
pub use TreeFeatureType::{BasicMerkNode, BigSummedMerkNode, CountedMerkNode, CountedSummedMerkNode, SummedMerkNode};

// ---- the table every accessor is checked against ----------------------------------
// type number, item bytes, root key, count, sum, big sum, entries kept outside the tree, parameter, flags
pub struct Parts { pub n: int, pub item: Option<Vec<u8>>, pub root: Option<Option<Vec<u8>>>, pub count: Option<u64>, pub sum: Option<i64>, pub big: Option<i128>, pub entries: Option<u64>, pub par: Option<u8>, pub reference: Option<ReferencePathType>, pub hop: MaxReferenceHop, pub flags: Option<ElementFlags> }
pub open spec fn bare(n: int, flags: Option<ElementFlags>) -> Parts { Parts { n, item: None, root: None, count: None, sum: None, big: None, entries: None, par: None, reference: None, hop: None, flags } }
pub open spec fn parts(e: Element) -> Parts {
    match e {
        Element::Item(v, f) => Parts { item: Some(v), ..bare(0, f) },
        Element::Reference(p, h, f) => Parts { reference: Some(p), hop: h, ..bare(1, f) },
        Element::Tree(k, f) => Parts { root: Some(k), ..bare(2, f) },
        Element::SumItem(s, f) => Parts { sum: Some(s), ..bare(3, f) },
        Element::SumTree(k, s, f) => Parts { root: Some(k), sum: Some(s), ..bare(4, f) },
        Element::BigSumTree(k, s, f) => Parts { root: Some(k), big: Some(s), ..bare(5, f) },
        Element::CountTree(k, c, f) => Parts { root: Some(k), count: Some(c), ..bare(6, f) },
        Element::CountSumTree(k, c, s, f) => Parts { root: Some(k), count: Some(c), sum: Some(s), ..bare(7, f) },
        Element::ProvableCountTree(k, c, f) => Parts { root: Some(k), count: Some(c), ..bare(8, f) },
        Element::ItemWithSumItem(v, s, f) => Parts { item: Some(v), sum: Some(s), ..bare(9, f) },
        Element::ProvableCountSumTree(k, c, s, f) => Parts { root: Some(k), count: Some(c), sum: Some(s), ..bare(10, f) },
        Element::CommitmentTree(c, p, f) => Parts { entries: Some(c), par: Some(p), ..bare(11, f) },
        Element::MmrTree(c, f) => Parts { entries: Some(c), ..bare(12, f) },
        Element::BulkAppendTree(c, p, f) => Parts { entries: Some(c), par: Some(p), ..bare(13, f) },
        Element::DenseAppendOnlyFixedSizeTree(c, h, f) => Parts { entries: Some(c as u64), par: Some(h), ..bare(14, f) },
    }
}
pub open spec fn opt(o: Option<i64>) -> i64 { match o { Some(x) => x, None => 0 } }
pub open spec fn big_of(p: Parts) -> i128 { match p.big { Some(x) => x, None => match p.sum { Some(s) => s as i128, None => 0 } } }
pub open spec fn count_of(p: Parts) -> u64 { match p.count { Some(x) => x, None => 1 } }
pub open spec fn tree(n: int) -> bool { n == 2 || (4 <= n <= 8) || (10 <= n <= 14) }
pub open spec fn item(n: int) -> bool { n == 0 || n == 3 || n == 9 }
pub open spec fn beside(n: int) -> bool { n >= 11 }
// the type numbers, of elements and of trees
pub open spec fn tnum(t: ElementType) -> int {
    match t { ElementType::Item => 0, ElementType::Reference => 1, ElementType::Tree => 2, ElementType::SumItem => 3, ElementType::SumTree => 4, ElementType::BigSumTree => 5, ElementType::CountTree => 6, ElementType::CountSumTree => 7,
        ElementType::ProvableCountTree => 8, ElementType::ItemWithSumItem => 9, ElementType::ProvableCountSumTree => 10, ElementType::CommitmentTree => 11, ElementType::MmrTree => 12, ElementType::BulkAppendTree => 13, ElementType::DenseAppendOnlyFixedSizeTree => 14 }
}
pub open spec fn ttnum(t: TreeType) -> int {
    match t { TreeType::NormalTree => 0, TreeType::SumTree => 1, TreeType::BigSumTree => 2, TreeType::CountTree => 3, TreeType::CountSumTree => 4, TreeType::ProvableCountTree => 5, TreeType::ProvableCountSumTree => 6, TreeType::CommitmentTree(_) => 7, TreeType::MmrTree => 8, TreeType::BulkAppendTree(_) => 9, TreeType::DenseAppendOnlyFixedSizeTree(_) => 10 }
}
pub open spec fn tpar(t: TreeType) -> Option<u8> { match t { TreeType::CommitmentTree(p) => Some(p), TreeType::BulkAppendTree(p) => Some(p), TreeType::DenseAppendOnlyFixedSizeTree(p) => Some(p), _ => None } }
// the element type number of a tree type number
pub open spec fn of_tree(n: int) -> int { if n == 0 { 2 } else if n <= 5 { n + 3 } else { n + 4 } }
pub open spec fn tree_is(t: TreeType, p: Parts) -> bool { of_tree(ttnum(t)) == p.n && tpar(t) == p.par }
pub open spec fn otree(t: Option<TreeType>, p: Parts) -> bool { match t { None => !tree(p.n), Some(t) => tree(p.n) && tree_is(t, p) } }
// what a node holding this element adds to a parent of the given tree type
pub open spec fn feature(t: int, p: Parts) -> TreeFeatureType {
    if t == 1 { TreeFeatureType::SummedMerkNode(opt(p.sum)) } else if t == 2 { TreeFeatureType::BigSummedMerkNode(big_of(p)) } else if t == 3 { TreeFeatureType::CountedMerkNode(count_of(p)) } else if t == 4 { TreeFeatureType::CountedSummedMerkNode(count_of(p), opt(p.sum)) }
    else if t == 5 { TreeFeatureType::ProvableCountedMerkNode(count_of(p)) } else if t == 6 { TreeFeatureType::ProvableCountedSummedMerkNode(count_of(p), opt(p.sum)) } else { TreeFeatureType::BasicMerkNode }
}

impl ElementType {
//@ fn grovedb-element/src/element_type.rs TryFrom<u8> for ElementType::try_from
//@ sig Result<Self, Self::Error> ==> Result<Self, ElementError>
//@ ret r
//@ spec
  ensures match r { Ok(t) => tnum(t) == value, Err(_) => value > 14 }
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::from_serialized_value
//@ ret r
//@ spec
  ensures match r { Ok(t) => serialized_value@.len() > 0 && tnum(t) == serialized_value@[0], Err(_) => serialized_value@.len() == 0 || serialized_value@[0] > 14 }
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::has_simple_value_hash
//@ ret r
//@ spec
  ensures r == item(tnum(*self))
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::has_combined_value_hash
//@ ret r
//@ spec
  ensures r == !item(tnum(*self))
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::is_tree
//@ ret r
//@ spec
  ensures r == tree(tnum(*self))
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::is_reference
//@ ret r
//@ spec
  ensures r == (tnum(*self) == 1)
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::is_item
//@ ret r
//@ spec
  ensures r == item(tnum(*self))
//@ end
//@ fn grovedb-element/src/element_type.rs ElementType::proof_node_type
//@ ret r
//@ spec
  ensures ({ let counted = match parent_tree_type { Some(t) => tnum(t) == 8 || tnum(t) == 10, None => false }; let n = tnum(*self);
    r == (if item(n) { if counted { ProofNodeType::KvCount } else { ProofNodeType::Kv } } else if n == 1 { if counted { ProofNodeType::KvRefValueHashCount } else { ProofNodeType::KvRefValueHash } } else { if counted { ProofNodeType::KvValueHashFeatureType } else { ProofNodeType::KvValueHash } }) })
//@ end
}
impl Element {
//@ fn grovedb-element/src/element/mod.rs Element::element_type
//@ ret r
//@ spec
  ensures tnum(r) == parts(*self).n
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::sum_value_or_default
//@ ret r
//@ spec
  ensures r == opt(parts(*self).sum)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::count_value_or_default
//@ ret r
//@ spec
  ensures r == count_of(parts(*self))
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::count_sum_value_or_default
//@ ret r
//@ spec
  ensures r == (count_of(parts(*self)), opt(parts(*self).sum))
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::big_sum_value_or_default
//@ ret r
//@ spec
  ensures r == big_of(parts(*self))
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::as_sum_item_value
//@ ret r
//@ spec
  ensures match r { Ok(s) => item(parts(*self).n) && parts(*self).sum == Some(s), Err(_) => !item(parts(*self).n) || parts(*self).sum is None }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::into_sum_item_value
//@ rulefirst Ok(value) ==> Ok({ value })
//@ ret r
//@ spec
  ensures match r { Ok(s) => item(parts(self).n) && parts(self).sum == Some(s), Err(_) => !item(parts(self).n) || parts(self).sum is None }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::as_sum_tree_value
//@ ret r
//@ spec
  ensures match r { Ok(s) => parts(*self).n == 4 && parts(*self).sum == Some(s), Err(_) => parts(*self).n != 4 }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::into_sum_tree_value
//@ rulefirst Ok(value) ==> Ok({ value })
//@ ret r
//@ spec
  ensures match r { Ok(s) => parts(self).n == 4 && parts(self).sum == Some(s), Err(_) => parts(self).n != 4 }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::as_item_bytes
//@ rulefirst Ok(value) ==> Ok(value.as_slice())
//@ ret r
//@ spec
  ensures match r { Ok(v) => parts(*self).item is Some && v@ == parts(*self).item.unwrap()@, Err(_) => parts(*self).item is None }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::into_item_bytes
//@ rulefirst Ok(value) ==> Ok({ value })
//@ ret r
//@ spec
  ensures match r { Ok(v) => parts(self).item == Some(v), Err(_) => parts(self).item is None }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::into_reference_path_type
//@ rulefirst Ok(value) ==> Ok({ value })
//@ ret r
//@ spec
  ensures match r { Ok(v) => parts(self).reference == Some(v), Err(_) => parts(self).reference is None }
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_sum_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 4)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_big_sum_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 5)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_basic_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 2)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_any_tree
//@ ret r
//@ spec
  ensures r == tree(parts(*self).n)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_commitment_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 11)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_mmr_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 12)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_bulk_append_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 13)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_dense_tree
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 14)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::uses_non_merk_data_storage
//@ ret r
//@ spec
  ensures r == beside(parts(*self).n)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::non_merk_entry_count
//@ ret r
//@ spec
  ensures r == parts(*self).entries
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_non_empty_tree
//@ ret r
//@ spec
  ensures r == (tree(parts(*self).n) && (beside(parts(*self).n) || parts(*self).root.unwrap() is Some))
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_non_empty_merk_tree
//@ ret r
//@ spec
  ensures r == (tree(parts(*self).n) && !beside(parts(*self).n) && parts(*self).root.unwrap() is Some)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_reference
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 1)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_any_item
//@ ret r
//@ spec
  ensures r == item(parts(*self).n)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_basic_item
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 0)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::has_basic_item
//@ ret r
//@ spec
  ensures r == parts(*self).item is Some
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_sum_item
//@ ret r
//@ spec
  ensures r == (item(parts(*self).n) && parts(*self).sum is Some)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_item_with_sum_item
//@ ret r
//@ spec
  ensures r == (parts(*self).n == 9)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::get_flags
//@ ret r
//@ spec
  ensures *r == parts(*self).flags
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::get_flags_owned
//@ ret r
//@ spec
  ensures r == parts(self).flags
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::get_flags_mut
//@ rule | Element ==> => flags, Element
//@ ret r
//@ spec
  ensures *r == parts(*old(self)).flags, parts(*final(self)) == (Parts { flags: *final(r), ..parts(*old(self)) })
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::set_flags
//@ rule | Element ==> => *flags = new_flags, Element
//@ spec
  ensures parts(*final(self)) == (Parts { flags: new_flags, ..parts(*old(self)) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), ..bare(2, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), ..bare(2, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), ..bare(2, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), ..bare(2, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), sum: Some(0), ..bare(4, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), sum: Some(0), ..bare(4, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), sum: Some(0), ..bare(4, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), sum: Some(0), ..bare(4, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_big_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), big: Some(0), ..bare(5, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_big_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), big: Some(0), ..bare(5, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_big_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), big: Some(0), ..bare(5, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_big_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), big: Some(0), ..bare(5, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_count_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), ..bare(6, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_count_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), ..bare(6, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), ..bare(6, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), ..bare(6, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_count_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), sum: Some(0), ..bare(7, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_count_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), sum: Some(0), ..bare(7, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), sum: Some(0), ..bare(7, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), sum: Some(0), ..bare(7, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_provable_count_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), ..bare(8, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_provable_count_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), ..bare(8, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), ..bare(8, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), ..bare(8, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_provable_count_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), sum: Some(0), ..bare(10, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_provable_count_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(None), count: Some(0), sum: Some(0), ..bare(10, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_sum_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), sum: Some(0), ..bare(10, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_sum_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(0), sum: Some(0), ..bare(10, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_sum_tree_with_flags_and_sum_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), sum: Some(sum_value), ..bare(4, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_big_sum_tree_with_flags_and_sum_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), big: Some(big_sum_value), ..bare(5, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_tree_with_flags_and_count_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(count_value), ..bare(6, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_count_sum_tree_with_flags_and_sum_and_count_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(count_value), sum: Some(sum_value), ..bare(7, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_tree_with_flags_and_count_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(count_value), ..bare(8, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_provable_count_sum_tree_with_flags_and_sum_and_count_value
//@ ret r
//@ spec
  ensures parts(r) == (Parts { root: Some(maybe_root_key), count: Some(count_value), sum: Some(sum_value), ..bare(10, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_item
//@ ret r
//@ spec
  ensures parts(r) == (Parts { item: Some(item_value), ..bare(0, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_item_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { item: Some(item_value), ..bare(0, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_sum_item
//@ ret r
//@ spec
  ensures parts(r) == (Parts { sum: Some(value), ..bare(3, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_sum_item_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { sum: Some(value), ..bare(3, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_item_with_sum_item
//@ ret r
//@ spec
  ensures parts(r) == (Parts { item: Some(item_value), sum: Some(sum_value), ..bare(9, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_item_with_sum_item_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { item: Some(item_value), sum: Some(sum_value), ..bare(9, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_reference
//@ ret r
//@ spec
  ensures parts(r) == (Parts { reference: Some(reference_path), ..bare(1, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_reference_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { reference: Some(reference_path), ..bare(1, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_reference_with_hops
//@ ret r
//@ spec
  ensures parts(r) == (Parts { reference: Some(reference_path), hop: max_reference_hop, ..bare(1, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_reference_with_max_hops_and_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { reference: Some(reference_path), hop: max_reference_hop, ..bare(1, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_commitment_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(total_count), par: Some(chunk_power), ..bare(11, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_mmr_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(0), ..bare(12, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_mmr_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(0), ..bare(12, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_mmr_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(mmr_size), ..bare(12, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_bulk_append_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(total_count), par: Some(chunk_power), ..bare(13, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_dense_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(0), par: Some(height), ..bare(14, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_dense_tree_with_flags
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(0), par: Some(height), ..bare(14, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::new_dense_tree
//@ ret r
//@ spec
  ensures parts(r) == (Parts { entries: Some(count as u64), par: Some(height), ..bare(14, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_commitment_tree
//@ ret r
//@ spec
  ensures r is Ok == (chunk_power <= 31), r is Ok ==> parts(r.unwrap()) == (Parts { entries: Some(0), par: Some(chunk_power), ..bare(11, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_commitment_tree_with_flags
//@ ret r
//@ spec
  ensures r is Ok == (chunk_power <= 31), r is Ok ==> parts(r.unwrap()) == (Parts { entries: Some(0), par: Some(chunk_power), ..bare(11, flags) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_bulk_append_tree
//@ ret r
//@ spec
  ensures r is Ok == (chunk_power <= 31), r is Ok ==> parts(r.unwrap()) == (Parts { entries: Some(0), par: Some(chunk_power), ..bare(13, None) })
//@ end
//@ fn grovedb-element/src/element/constructor.rs Element::empty_bulk_append_tree_with_flags
//@ ret r
//@ spec
  ensures r is Ok == (chunk_power <= 31), r is Ok ==> parts(r.unwrap()) == (Parts { entries: Some(0), par: Some(chunk_power), ..bare(13, flags) })
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::root_key_and_tree_type_owned
//@ ret r
//@ spec
  ensures match r { None => !tree(parts(self).n), Some((k, t)) => tree(parts(self).n) && tree_is(t, parts(self)) && k == (match parts(self).root { Some(k) => k, None => None }) }
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::root_key_and_tree_type
//@ ret r
//@ spec
  ensures match r { None => !tree(parts(*self).n), Some((k, t)) => tree(parts(*self).n) && tree_is(t, parts(*self)) && *k == (match parts(*self).root { Some(k) => k, None => None }) }
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::tree_flags_and_type
//@ ret r
//@ spec
  ensures match r { None => !tree(parts(*self).n), Some((f, t)) => tree(parts(*self).n) && tree_is(t, parts(*self)) && *f == parts(*self).flags }
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::tree_type
//@ ret r
//@ spec
  ensures otree(r, parts(*self))
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::tree_feature_type
//@ ret r
//@ spec
  ensures match r { None => !tree(parts(*self).n), Some(t) => tree(parts(*self).n) && t == (if parts(*self).n == 2 || beside(parts(*self).n) { TreeFeatureType::BasicMerkNode } else { feature(if parts(*self).n <= 8 { parts(*self).n - 3 } else { 6 }, parts(*self)) }) }
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::maybe_tree_type
//@ ret r
//@ spec
  ensures match r { MaybeTree::Tree(t) => otree(Some(t), parts(*self)), MaybeTree::NotTree => !tree(parts(*self).n) }
//@ end
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::get_feature_type
//@ ret r
//@ spec
  ensures r is Ok, r.unwrap() == feature(ttnum(parent_tree_type), parts(*self))
//@ end
}
impl TreeType {
//@ fn merk/src/tree_type/mod.rs TreeType::discriminant
//@ ret r
//@ spec
  ensures r == ttnum(*self)
//@ end
//@ fn merk/src/tree_type/mod.rs TryFrom<u8> for TreeType::try_from
//@ sig Result<Self, Self::Error> ==> Result<Self, ElementError>
//@ ret r
//@ spec
  ensures match r { Ok(t) => ttnum(t) == value && (tpar(t) is None || tpar(t) == Some(0u8)), Err(_) => value > 10 }
//@ end
//@ fn merk/src/tree_type/mod.rs TreeType::uses_non_merk_data_storage
//@ ret r
//@ spec
  ensures r == (ttnum(*self) >= 7)
//@ end
//@ fn merk/src/tree_type/mod.rs TreeType::allows_sum_item
//@ ret r
//@ spec
  ensures r == (ttnum(*self) == 1 || ttnum(*self) == 2 || ttnum(*self) == 4 || ttnum(*self) == 6)
//@ end
//@ fn merk/src/tree_type/mod.rs TreeType::empty_tree_feature_type
//@ ret r
//@ spec
  ensures r == (match feature(ttnum(*self), Parts { count: Some(0), ..bare(0, None) }) { x => x })
//@ end
//@ fn merk/src/tree_type/mod.rs TreeType::to_element_type
//@ ret r
//@ spec
  ensures r is Some, tnum(r.unwrap()) == of_tree(ttnum(*self))
//@ end
}
} // verus!
fn main() {}
