//! C10 C11: cost accumulation and removed-byte bookkeeping.
use grovedb_costs::error::Error as CErr;
use grovedb_costs::storage_cost::key_value_cost::KeyValueStorageCost;
use grovedb_costs::storage_cost::removal::{StorageRemovedBytes, UNKNOWN_EPOCH};
use grovedb_costs::storage_cost::removal::StorageRemovedBytes::*;
use grovedb_costs::storage_cost::transition::OperationStorageTransitionType as T;
use grovedb_costs::storage_cost::StorageCost;
use grovedb_costs::*;
use intmap::IntMap;
use std::collections::BTreeMap;
use verif_harness::*;

type Model = BTreeMap<([u8; 32], u16), u64>;
fn model(r: &StorageRemovedBytes) -> Model {
    let mut m = Model::new();
    match r {
        NoStorageRemoval => {}
        BasicStorageRemoval(n) => { m.insert(([0; 32], UNKNOWN_EPOCH), *n as u64); }
        SectionedStorageRemoval(s) => for (id, im) in s { for (k, v) in im.iter() { *m.entry((*id, k)).or_default() += *v as u64; } },
    }
    m.retain(|_, v| *v != 0);
    m
}
fn madd(a: &Model, b: &Model) -> Model {
    let mut m = a.clone();
    for (k, v) in b { let e = m.entry(*k).or_default(); *e = (*e + v).min(u32::MAX as u64); }
    m
}
fn rem(r: &mut Rng, big: bool) -> StorageRemovedBytes {
    let v = |r: &mut Rng| if big && r.chance(1, 6) { r.edge32() } else { r.below(1000) as u32 };
    match r.below(5) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(v(r)),
        _ => {
            let mut m = BTreeMap::new();
            for _ in 0..r.below(4) {
                let id = match r.below(4) { 0 | 1 => [0u8; 32], 2 => [1u8; 32], _ => [r.below(3) as u8 + 2; 32] };
                let mut im = IntMap::new();
                for _ in 0..r.below(4) {
                    let ep = match r.below(4) { 0 => UNKNOWN_EPOCH, 1 => 0, _ => r.below(5) as u16 };
                    im.insert(ep, v(r));
                }
                m.insert(id, im);
            }
            SectionedStorageRemoval(m)
        }
    }
}
fn c11(ctx: &mut Ctx) -> R {
    ctx.rule("random pairs and chains of removal records (all three shapes, shared and disjoint identities/epochs, boundary values) against a map-of-sums model; non-trivial: both sides record a removal");
    for k in 0..ctx.n(60_000) {
        let big = k % 4 == 0;
        let (a, b, c) = (rem(&mut ctx.rng, big), rem(&mut ctx.rng, big), rem(&mut ctx.rng, big));
        at(format!("{a:?} + {b:?}"));
        ctx.case(format!("{a:?}+{b:?}"), !model(&a).is_empty() && !model(&b).is_empty());
        let want = madd(&model(&a), &model(&b));
        let s = a.clone() + b.clone();
        chk!(model(&s) == want, "{a:?} + {b:?} = {s:?}: per-identity/epoch sums are not preserved");
        let mut s2 = a.clone();
        s2 += b.clone();
        chk!(model(&s2) == want, "{a:?} += {b:?} gives {s2:?}: per-identity/epoch sums are not preserved");
        chk!(matches!((&a, &b, &s), (NoStorageRemoval, NoStorageRemoval, NoStorageRemoval)) || !matches!(s, NoStorageRemoval) , "{a:?} + {b:?} lost its shape");
        let tot: u64 = want.values().sum();
        {
            let sat = |x: u64| x.min(u32::MAX as u64);
            chk!(s.total_removed_bytes() as u64 == sat(tot), "total of {s:?} is {}, expected {}", s.total_removed_bytes(), sat(tot));
            chk!(s2.total_removed_bytes() as u64 == sat(tot), "total of {s2:?}");
            chk!(s.has_removal() == (tot != 0), "has_removal of {s:?}");
            let ta: u64 = sat(model(&a).values().sum());
            let tb: u64 = sat(model(&b).values().sum());
            if !big { chk!(ta + tb == tot, "totals {ta} + {tb} != {tot}"); }
            chk!(a.partial_cmp(&b) == Some(ta.cmp(&tb)), "{a:?} <=> {b:?} does not compare totals");
        }
        // chains, in either grouping and order
        let l = (a.clone() + b.clone()) + c.clone();
        let r = a.clone() + (b.clone() + c.clone());
        let z = c.clone() + (b.clone() + a.clone());
        if !big {
            chk!(model(&l) == model(&r) && model(&l) == model(&z), "adding {a:?}, {b:?}, {c:?} depends on grouping or order");
        }
        let kv = KeyValueStorageCost {
            key_storage_cost: StorageCost { added_bytes: 0, replaced_bytes: 0, removed_bytes: a.clone() },
            value_storage_cost: StorageCost { added_bytes: 0, replaced_bytes: 0, removed_bytes: b.clone() },
            new_node: false, needs_value_verification: false };
        chk!(model(&kv.combined_removed_bytes()) == want, "combined_removed_bytes of {a:?} and {b:?}");
    }
    Ok(())
}

fn sc(r: &mut Rng, big: bool) -> StorageCost {
    let v = |r: &mut Rng| if big { r.edge32() } else { r.below(500) as u32 };
    StorageCost { added_bytes: if r.coin() { v(r) } else { 0 }, replaced_bytes: if r.coin() { v(r) } else { 0 }, removed_bytes: if r.coin() { rem(r, false) } else { NoStorageRemoval } }
}
fn oc(r: &mut Rng, big: bool) -> OperationCost {
    let v = |r: &mut Rng| if big { r.edge32() } else { r.below(500) as u32 };
    OperationCost { seek_count: v(r), storage_cost: sc(r, big), storage_loaded_bytes: if big { r.edge() } else { r.below(500) }, hash_node_calls: v(r), sinsemilla_hash_calls: v(r) }
}
#[derive(Clone, PartialEq, Debug)]
struct M { v: [u128; 6], r: Model }
fn m(c: &OperationCost) -> M {
    M { v: [c.seek_count as u128, c.storage_cost.added_bytes as u128, c.storage_cost.replaced_bytes as u128, c.storage_loaded_bytes as u128, c.hash_node_calls as u128, c.sinsemilla_hash_calls as u128], r: model(&c.storage_cost.removed_bytes) }
}
fn ma(a: &M, b: &M) -> M {
    let mut v = [0u128; 6];
    for i in 0..6 { v[i] = (a.v[i] + b.v[i]).min(if i == 3 { u64::MAX as u128 } else { u32::MAX as u128 }); }
    M { v, r: madd(&a.r, &b.r) }
}

// random programs over the combinators; returns the context and the model of (value, cost)
type V = Result<i64, String>;
fn prog(r: &mut Rng, depth: usize, log: &mut String) -> (CostContext<V>, V, M) {
    let leaf = |r: &mut Rng| -> (V, OperationCost) {
        (if r.chance(1, 4) { Err(format!("e{}", r.below(9))) } else { Ok(r.below(100) as i64) }, oc(r, false))
    };
    if depth == 0 {
        let (v, c) = leaf(r);
        log.push_str(&format!("leaf({v:?})"));
        let mm = m(&c);
        return if r.coin() { (v.clone().wrap_with_cost(c), v, mm) } else { let c2 = c.clone(); (v.clone().wrap_fn_cost(move |_| c2), v, mm) };
    }
    let k = r.below(16);
    log.push_str(&format!("op{k}("));
    let (ctx, v, c) = prog(r, depth - 1, log);
    let out = match k {
        0 => (ctx.map(|x| x.map(|y| y + 1)), v.map(|y| y + 1), c),
        1 => (ctx.map_ok(|y| y * 2), v.map(|y| y * 2), c),
        2 => (ctx.map_err(|e| e + "!"), v.map_err(|e| e + "!"), c),
        3 => { let (c2, v2, k2) = prog(r, depth - 1, log); (ctx.flat_map(|_| c2), v2, ma(&c, &k2)) }
        4 => {
            let (c2, v2, k2) = prog(r, depth - 1, log);
            let z = ctx.flat_map_ok(|_| c2);
            match v { Ok(_) => (z, v2, ma(&c, &k2)), Err(e) => (z, Err(e), c) }
        }
        5 => { let o = oc(r, false); let mo = m(&o); (ctx.add_cost(o), v, ma(&c, &mo)) }
        6 => { let o = oc(r, false); let mo = m(&o); let outer: CostContext<CostContext<V>> = ctx.wrap_with_cost(o); (outer.flatten(), v, ma(&c, &mo)) }
        7 => { let n = std::cell::Cell::new(None); let z = ctx.for_ok(|x| n.set(Some(*x))); assert!(n.get() == v.clone().ok(), "for_ok saw {:?} for {v:?}", n.get()); (z, v, c) }
        8 => {
            let z: CostResult<Result<i64, String>, String> = ctx.map_ok(|y| if y % 3 == 0 { Err("in".to_string()) } else { Ok(y) });
            (z.flatten(), v.and_then(|y| if y % 3 == 0 { Err("in".to_string()) } else { Ok(y) }), c)
        }
        9 => { let mut acc = OperationCost::default(); let x = ctx.unwrap_add_cost(&mut acc); (x.wrap_with_cost(acc), v, c) }
        10 | 11 => {
            let o = oc(r, false); let mo = m(&o);
            let f = move || -> CostResult<i64, String> { let mut cost = o; let x = cost_return_on_error!(&mut cost, ctx); Ok(x + 5).wrap_with_cost(cost) };
            let g = ma(&c, &mo);
            (f(), v.map(|x| x + 5), g)
        }
        12 => {
            let o = oc(r, false); let mo = m(&o);
            let f = move || -> CostResult<i64, String> { let mut cost = o; let x = cost_return_on_error_into!(&mut cost, ctx); Ok(x + 5).wrap_with_cost(cost) };
            (f(), v.map(|x| x + 5), ma(&c, &mo))
        }
        13 => {
            let o = oc(r, false); let mo = m(&o); let inner = v.clone();
            let into = r.coin();
            let f = move || -> CostResult<i64, String> { let cost = o; let x = if into { cost_return_on_error_into_no_add!(cost, inner) } else { cost_return_on_error_no_add!(cost, inner) }; Ok(x + 7).wrap_with_cost(cost) };
            (f(), v.map(|x| x + 7), mo)
        }
        14 => {
            let inner = v.clone(); let into = r.coin();
            let f = move || -> CostResult<i64, String> { let x = if into { cost_return_on_error_into_default!(inner) } else { cost_return_on_error_default!(inner) }; Ok(x + 7).wrap_with_cost(OperationCost::default()) };
            (f(), v.map(|x| x + 7), m(&OperationCost::default()))
        }
        _ => {
            let mo = c.clone();
            let full = CostContext { value: ctx.value, cost: ctx.cost.clone() };
            match full.cost_as_result() {
                Ok(oc) => { assert!(v.is_ok() && m(&oc) == mo, "cost_as_result"); (v.clone().wrap_with_cost(oc), v, mo) }
                Err(e) => { assert!(v == Err(e.clone()), "cost_as_result error"); (Err(e).wrap_with_cost(ctx.cost), v, mo) }
            }
        }
    };
    log.push(')');
    out
}

fn c10(ctx: &mut Ctx) -> R {
    ctx.rule("random cost records (ordinary and saturating), random combinator programs with a reference interpretation, and storage-cost bookkeeping over boundary sizes; non-trivial: distinct record pair or program");
    let z = OperationCost::default();
    chk!(z.is_nothing() && m(&z).v == [0; 6], "the default cost is not empty");
    for k in 0..ctx.n(30_000) {
        let big = k % 3 == 0;
        let (a, b, c) = (oc(&mut ctx.rng, big), oc(&mut ctx.rng, big), oc(&mut ctx.rng, big));
        at(format!("{a:?} + {b:?}"));
        ctx.case(format!("{a:?}{b:?}"), true);
        let s = a.clone() + b.clone();
        chk!(m(&s) == ma(&m(&a), &m(&b)), "{a:?} + {b:?} = {s:?}");
        let mut s2 = a.clone();
        s2 += b.clone();
        chk!(m(&s2) == m(&s), "+= differs from +: {a:?} , {b:?} -> {s2:?} / {s:?}");
        let t = a.storage_cost.clone() + b.storage_cost.clone();
        chk!(t == s.storage_cost, "StorageCost sum differs: {a:?} {b:?}");
        chk!(m(&((a.clone() + b.clone()) + c.clone())) == m(&(a.clone() + (b.clone() + c.clone()))), "not associative: {a:?} {b:?} {c:?}");
        chk!(a.clone() + z.clone() == a && z.clone() + a.clone() == a, "default is not an identity for {a:?}");
        chk!(a.is_nothing() == (a == z), "is_nothing({a:?})");
        let rt = |x: &OperationCost| x.storage_cost.removed_bytes.total_removed_bytes();
        let w = a.seek_count >= b.seek_count && a.storage_cost.added_bytes >= b.storage_cost.added_bytes && a.storage_cost.replaced_bytes >= b.storage_cost.replaced_bytes
            && rt(&a) <= rt(&b) && a.storage_loaded_bytes >= b.storage_loaded_bytes && a.hash_node_calls >= b.hash_node_calls && a.sinsemilla_hash_calls >= b.sinsemilla_hash_calls;
        chk!(a.worse_or_eq_than(&b) == w, "worse_or_eq_than({a:?}, {b:?})");
        chk!(a.worse_or_eq_than(&a), "worse_or_eq_than is not reflexive for {a:?}");
        // one component lowered at a time
        let mut d = a.clone();
        match ctx.rng.below(6) {
            0 => d.seek_count = d.seek_count.saturating_sub(1), 1 => d.storage_cost.added_bytes = d.storage_cost.added_bytes.saturating_sub(1),
            2 => d.storage_cost.replaced_bytes = d.storage_cost.replaced_bytes.saturating_sub(1), 3 => d.storage_loaded_bytes = d.storage_loaded_bytes.saturating_sub(1),
            4 => d.hash_node_calls = d.hash_node_calls.saturating_sub(1), _ => d.sinsemilla_hash_calls = d.sinsemilla_hash_calls.saturating_sub(1),
        }
        chk!(a.worse_or_eq_than(&d) && (d == a || !d.worse_or_eq_than(&a)), "worse_or_eq_than {a:?} vs {d:?}");
        let (x, y) = (ctx.rng.edge32(), ctx.rng.edge());
        chk!(m(&OperationCost::with_seek_count(x)).v == [x as u128, 0, 0, 0, 0, 0], "with_seek_count");
        chk!(m(&OperationCost::with_storage_written_bytes(x)).v == [0, x as u128, 0, 0, 0, 0], "with_storage_written_bytes");
        chk!(m(&OperationCost::with_storage_loaded_bytes(y)).v == [0, 0, 0, y as u128, 0, 0], "with_storage_loaded_bytes");
        chk!(m(&OperationCost::with_hash_node_calls(x)).v == [0, 0, 0, 0, x as u128, 0], "with_hash_node_calls");
        chk!(OperationCost::with_storage_freed_bytes(x).storage_cost.removed_bytes == BasicStorageRemoval(x), "with_storage_freed_bytes");
        // storage cost predicates
        let st = &a.storage_cost;
        let tot = st.added_bytes as u64 + st.replaced_bytes as u64;
        if tot < u32::MAX as u64 {
            for len in [tot as u32, tot as u32 + 1, ctx.rng.edge32()] {
                chk!(st.verify(len).is_ok() == (len as u64 == tot), "verify({st:?}, {len})");
                chk!(st.verify_key_storage_cost(len, true).is_ok() == (len as u64 == tot), "verify_key_storage_cost new {st:?} {len}");
                chk!(st.verify_key_storage_cost(len, false).is_ok(), "verify_key_storage_cost old");
            }
        }
        chk!(st.has_storage_change() == (st.added_bytes != 0 || rt(&a) != 0), "has_storage_change {st:?}");
        let hr = rt(&a) != 0;
        let ty = match st.transition_type() { T::OperationInsertNew => 0, T::OperationUpdateBiggerSize => 1, T::OperationUpdateSmallerSize => 2, T::OperationUpdateSameSize => 3, T::OperationReplace => 4, T::OperationDelete => 5, T::OperationNone => 6 };
        let want = match (st.added_bytes > 0, st.replaced_bytes > 0, hr) { (true, _, true) => 4, (true, true, false) => 1, (true, false, false) => 0, (false, true, true) => 2, (false, true, false) => 3, (false, false, true) => 5, (false, false, false) => 6 };
        chk!(ty == want, "transition_type({st:?}) = {ty}, expected {want}");
        let ka = KeyValueStorageCost { key_storage_cost: a.storage_cost.clone(), value_storage_cost: b.storage_cost.clone(), new_node: ctx.rng.coin(), needs_value_verification: ctx.rng.coin() };
        let kb = KeyValueStorageCost { key_storage_cost: b.storage_cost.clone(), value_storage_cost: c.storage_cost.clone(), new_node: ctx.rng.coin(), needs_value_verification: ctx.rng.coin() };
        let ks = ka.clone() + kb.clone();
        let mut ks2 = ka.clone();
        ks2 += kb.clone();
        chk!(ks == ks2 && ks.key_storage_cost == a.storage_cost.clone() + b.storage_cost.clone() && ks.value_storage_cost == b.storage_cost.clone() + c.storage_cost.clone()
            && ks.new_node == (ka.new_node & kb.new_node) && ks.needs_value_verification == (ka.needs_value_verification & kb.needs_value_verification), "KeyValueStorageCost sum");
    }
    // varint length, from the definition
    let vl = |n: u64| { let mut n = n; let mut k = 1u64; while n >= 128 { n >>= 7; k += 1; } k };
    for _ in 0..ctx.n(30_000) {
        let r = &mut ctx.rng;
        let key = r.below(400) as u32;
        let len = if r.coin() { r.below(400) as u32 } else { r.edge32() >> 2 };
        let ch = |r: &mut Rng| if r.coin() { Some((r.below(60) as u32, r.below(17) as u32)) } else { None };
        let tr = match r.below(4) { 0 => None, 1 => Some((0, r.below(10) as u32, 8u64)), 2 => Some((1, r.below(20) as u32, 16)), _ => Some((2, 16, 16)) };
        let tct = |k: i32| match k { 0 => TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes, 1 => TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes, _ => TreeCostType::TreeFeatureUses16Bytes };
        let (l, rr) = (ch(r), ch(r));
        let children = if r.coin() { None } else { Some((tr.as_ref().map(|t| (tct(t.0), t.1)), l, rr)) };
        let paid_key = key as u64 + vl(key as u64);
        let mut pv = len as u64;
        if let Some((t, a, b)) = &children {
            let sub = |p: u64, k: u64| p.saturating_sub(k);
            pv = sub(pv, 2);
            for c in [a, b] { if let Some((x, y)) = c { pv = sub(pv, *x as u64); pv = sub(pv, *y as u64); } }
            let mut cs = 0;
            if t.is_some() { let q = tr.as_ref().unwrap(); pv = sub(pv, q.1 as u64) + q.2; cs = q.2; }
            pv += vl(pv);
            pv += key as u64 + 4 + cs;
        } else { pv += vl(pv); }
        let base = oc(r, false);
        let mode = r.below(5);
        let mk = |t: u64, split: u64| StorageCost { added_bytes: split.min(t) as u32, replaced_bytes: (t - split.min(t)) as u32, removed_bytes: BasicStorageRemoval(3) };
        let (ok, info, want) = match mode {
            0 => (true, None, Some((paid_key + pv, 0u64, 0u64))),
            _ => {
                let kt = if r.chance(1, 5) { paid_key + 1 } else { paid_key };
                let vt = if r.chance(1, 5) { pv + 1 } else { pv };
                let (s1, s2) = (r.below(kt + 1), r.below(vt + 1));
                let nn = r.coin();
                let nv = r.coin();
                let info = KeyValueStorageCost { key_storage_cost: mk(kt, s1), value_storage_cost: mk(vt, s2), new_node: nn, needs_value_verification: nv };
                let ok = (!nn || kt == paid_key) && (!nv || vt == pv);
                let w = (s1 + s2, (kt - s1) + (vt - s2), 6);
                (ok, Some(info), Some(w))
            }
        };
        at(format!("add_key_value_storage_costs({key}, {len}, {}, {})", children.is_some(), info.is_some()));
        ctx.case((key, len, mode, paid_key, pv), true);
        let desc = format!("key_len {key}, value_len {len}, children {:?}, mode {mode}", children.as_ref().map(|c| (c.0.is_some(), c.1, c.2)));
        let mut cost = base.clone();
        let res = cost.add_key_value_storage_costs(key, len, children, info);
        chk!(res.is_ok() == ok, "add_key_value_storage_costs {desc}: ok={} expected {ok}", res.is_ok());
        if let (true, Some((ad, re, rm))) = (ok, want) {
            let mut e = m(&base);
            e.v[1] += ad as u128;
            e.v[2] += re as u128;
            if rm > 0 { e.r = madd(&e.r, &model(&BasicStorageRemoval(rm as u32))); }
            chk!(m(&cost) == e, "add_key_value_storage_costs {desc}: charged {:?}, expected {:?}", m(&cost).v, e.v);
        } else if !ok { chk!(matches!(res, Err(CErr::StorageCostMismatch { .. })), "wrong error"); chk!(cost == base, "a refused storage cost was partly charged: {desc}"); }
        // root key updates
        let (o, n) = (ctx.rng.below(300) as u32, ctx.rng.below(300) as u32);
        let (ob, nb) = (o as u64 + vl(o as u64), n as u64 + vl(n as u64));
        let u = KeyValueStorageCost::for_updated_root_cost(Some(o), n);
        let v = &u.value_storage_cost;
        chk!(!u.new_node && u.key_storage_cost.added_bytes == 0 && u.key_storage_cost.replaced_bytes == 34
            && v.added_bytes as u64 + v.replaced_bytes as u64 == nb && v.replaced_bytes as u64 + v.removed_bytes.total_removed_bytes() as u64 == ob
            && (v.added_bytes == 0 || v.removed_bytes.total_removed_bytes() == 0), "for_updated_root_cost(Some({o}), {n})");
        let u = KeyValueStorageCost::for_updated_root_cost(None, n);
        chk!(u.new_node && u.key_storage_cost.added_bytes == 34 && u.value_storage_cost.added_bytes as u64 == nb && u.value_storage_cost.replaced_bytes == 0, "for_updated_root_cost(None, {n})");
    }
    for _ in 0..ctx.n(40_000) {
        let mut log = String::new();
        let d = 1 + ctx.rng.us(5);
        let (c, v, mm) = prog(&mut ctx.rng, d, &mut log);
        at(log.clone());
        ctx.case(&log, true);
        chk!(*c.value() == v, "{log}: value {:?}, expected {v:?}", c.value());
        chk!(m(c.cost()) == mm, "{log}: cost {:?}, expected {mm:?}", c.cost());
    }
    Ok(())
}

fn main() {
    main_with(&[("C10", c10), ("C11", c11)]);
}
