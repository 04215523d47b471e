// what a verified answer says about the tree with that root hash: keys, values and how the stored hashes bind them
// a stored element whose value hash is the hash of its bytes
pub open spec fn simple(v: Seq<u8>) -> bool { v.len() > 0 && (v[0] == 0 || v[0] == 3 || v[0] == 9) }
// stored bytes that begin with the number of an element kind other than the simple ones
pub open spec fn typed(v: Seq<u8>) -> bool { v.len() > 0 && v[0] <= 14 }
pub open spec fn compound(v: Seq<u8>) -> bool { typed(v) && !simple(v) }
// items that are intervals, one after the other
pub open spec fn proper(items: Seq<QueryItem>) -> bool { (forall|i: int| 0 <= i < items.len() ==> wf(#[trigger] items[i])) && forall|i: int, j: int| 0 <= i < j < items.len() ==> plt(hi(#[trigger] items[i]), lo(#[trigger] items[j])) }
pub open spec fn bef(a: Seq<u8>, b: Seq<u8>, ltr: bool) -> bool { if ltr { klt(a, b) } else { klt(b, a) } }
pub open spec fn lim_ok(lim0: Option<u16>, lim: Option<u16>, n: int) -> bool { match lim0 { None => lim is None, Some(l) => lim is Some && lim->0 + n == l } }
pub open spec fn selected(items: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|m: int| 0 <= m < items.len() && sel(#[trigger] items[m], k) }
// how the stored hash binds the returned value
pub open spec fn bound_plain(o: ProvedKeyOptionalValue, vh: H) -> bool { o.value is Some && vh == hv(o.value->0@) && o.proof == vh && !o.child_hash_verified }
pub open spec fn bound_hash_only(o: ProvedKeyOptionalValue, vh: H, pv: u16) -> bool { o.value is Some && vh == o.proof && (pv >= 1 ==> compound(o.value->0@)) && !o.child_hash_verified }
pub open spec fn bound_child(o: ProvedKeyOptionalValue, vh: H, pv: u16) -> bool { o.value is Some && vh == o.proof && (pv >= 1 ==> compound(o.value->0@)) && o.child_hash_verified && exists|c: H| vh == #[trigger] comb(hv(o.value->0@), c) }
pub open spec fn bound_ref(o: ProvedKeyOptionalValue, vh: H) -> bool { o.value is Some && vh == comb(o.proof, hv(o.value->0@)) && !o.child_hash_verified }
pub open spec fn vouched(o: ProvedKeyOptionalValue, vh: H, pv: u16) -> bool { bound_plain(o, vh) || bound_hash_only(o, vh, pv) || bound_child(o, vh, pv) || bound_ref(o, vh) }
pub open spec fn in_tree(g: MT, o: ProvedKeyOptionalValue, pv: u16) -> bool { exists|vh: H| #[trigger] ent(g, o.key@, vh) && vouched(o, vh, pv) }
pub open spec fn returned(out: Seq<ProvedKeyOptionalValue>, k: Seq<u8>) -> bool { exists|r: int| 0 <= r < out.len() && (#[trigger] out[r]).key@ == k }
pub open spec fn beyond(out: Seq<ProvedKeyOptionalValue>, k: Seq<u8>, ltr: bool) -> bool { forall|r: int| 0 <= r < out.len() ==> bef((#[trigger] out[r]).key@, k, ltr) }
pub open spec fn exact(g: MT, items: Seq<QueryItem>, limit: Option<u16>, ltr: bool, pv: u16, res: ProofVerificationResult) -> bool {
    let out = res.result_set@;
    (forall|r: int| 0 <= r < out.len() ==> selected(items, (#[trigger] out[r]).key@) && in_tree(g, out[r], pv))
    && (forall|r: int, t: int| 0 <= r < t < out.len() ==> bef((#[trigger] out[r]).key@, (#[trigger] out[t]).key@, ltr))
    && (forall|k: Seq<u8>, vh: H| #[trigger] ent(g, k, vh) && selected(items, k) ==> returned(out, k) || (limit is Some && out.len() == limit->0 && beyond(out, k, ltr)))
    && lim_ok(limit, res.limit, out.len() as int)
}
