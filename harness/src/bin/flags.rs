//! C12 C13 C14: epoch based storage flags.
use grovedb_costs::storage_cost::removal::{StorageRemovedBytes, StorageRemovedBytes::*};
use grovedb_costs::storage_cost::StorageCost;
use grovedb_epoch_based_storage_flags::{MergingOwnersStrategy as S, StorageFlags, StorageFlags::*};
use intmap::IntMap;
use std::collections::BTreeMap;
use verif_harness::*;

type M = BTreeMap<u16, u32>;
const MIN: u32 = 3;
fn owner(r: &mut Rng) -> [u8; 32] { match r.below(4) { 0 => [0; 32], 1 => [1; 32], 2 => [2; 32], _ => { let mut o = [7; 32]; o[31] = r.below(3) as u8; o } } }
fn epoch(r: &mut Rng) -> u16 { match r.below(8) { 0 => 0, 1 => u16::MAX, 2 => 255, 3 => 256, _ => r.below(7) as u16 } }
fn amount(r: &mut Rng) -> u32 { match r.below(7) { 0 => r.below(8) as u32, 1 => r.edge32(), 2 => *r.pick(&[127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, u32::MAX - 3, u32::MAX - 4]), _ => r.below(600) as u32 } }
/// a well-formed value: later epochs lie after the base epoch and the map is not empty
fn flags(r: &mut Rng) -> StorageFlags {
    let base = epoch(r);
    let mut m = M::new();
    if base < u16::MAX && r.chance(3, 5) {
        for _ in 0..1 + r.below(4) { let e = if r.chance(1, 8) { r.range(base as u64 + 1, u16::MAX as u64) as u16 } else { base.saturating_add(1 + r.below(5) as u16) }; if e > base { m.insert(e, amount(r)); } }
    }
    make(base, (!m.is_empty()).then_some(m), r.coin().then(|| owner(r)))
}
fn make(base: u16, m: Option<M>, o: Option<[u8; 32]>) -> StorageFlags {
    match (m, o) { (None, None) => SingleEpoch(base), (Some(m), None) => MultiEpoch(base, m), (None, Some(o)) => SingleEpochOwned(base, o), (Some(m), Some(o)) => MultiEpochOwned(base, m, o) }
}
fn parts(f: &StorageFlags) -> (u16, Option<M>, Option<[u8; 32]>) {
    match f.clone() { SingleEpoch(b) => (b, None, None), MultiEpoch(b, m) => (b, Some(m), None), SingleEpochOwned(b, o) => (b, None, Some(o)), MultiEpochOwned(b, m, o) => (b, Some(m), Some(o)) }
}
fn varint(mut v: u32) -> Vec<u8> { let mut o = vec![]; while v >= 128 { o.push(v as u8 | 128); v >>= 7; } o.push(v as u8); o }
/// the format: type byte, owner, base epoch (big endian), then (epoch, LEB128 amount) ascending
fn encode(f: &StorageFlags) -> Vec<u8> {
    let (b, m, o) = parts(f);
    let mut v = vec![match (&m, &o) { (None, None) => 0, (Some(_), None) => 1, (None, Some(_)) => 2, _ => 3 }];
    if let Some(o) = o { v.extend(o); }
    v.extend(b.to_be_bytes());
    for (e, a) in m.unwrap_or_default() { v.extend(e.to_be_bytes()); v.extend(varint(a)); }
    v
}
fn c12(ctx: &mut Ctx) -> R {
    ctx.rule("random well-formed flags (boundary epochs and amounts) against an independent encoder; random, truncated and mutated byte strings for the decoder; non-trivial: flags with an epoch map, or bytes that decode");
    for _ in 0..ctx.n(120_000) {
        let f = flags(&mut ctx.rng);
        at(format!("{f:?}"));
        let b = f.serialize();
        chk!(b == encode(&f), "{f:?} serializes to {}", hx(&b));
        chk!(f.serialized_size() as usize == b.len(), "{f:?}: predicted size {} of {} bytes", f.serialized_size(), b.len());
        chk!(f.type_byte() == b[0], "type byte");
        match StorageFlags::deserialize(&b) { Ok(Some(g)) if g == f => {} x => fail!("{f:?} decodes to {x:?}") }
        chk!(matches!(StorageFlags::from_slice(&b), Ok(Some(g)) if g == f), "from_slice");
        chk!(matches!(StorageFlags::from_element_flags_ref(&f.to_element_flags()), Ok(Some(g)) if g == f), "element flags");
        chk!(matches!(StorageFlags::map_some_element_flags_ref(&f.to_some_element_flags()), Ok(Some(g)) if g == f), "some element flags");
        chk!(matches!(StorageFlags::map_cow_some_element_flags_ref(&f.to_some_element_flags()), Ok(Some(g)) if *g == f), "cow element flags");
        chk!(StorageFlags::map_owned_to_element_flags(Some(f.clone())) == b && StorageFlags::map_to_some_element_flags(Some(&f)) == Some(b.clone()), "mapping to element flags");
        ctx.case(format!("{f:?}"), f.epoch_index_map().is_some());
        // bytes
        let mut x = match ctx.rng.below(3) { 0 => { let n = ctx.rng.us(48); ctx.rng.bytes(n) } _ => b.clone() };
        for _ in 0..ctx.rng.below(3) { if x.is_empty() { break; } match ctx.rng.below(4) { 0 => { x.pop(); } 1 => { let i = ctx.rng.us(x.len()); x[i] = *ctx.rng.pick(&[0, 0x7f, 0x80, 0xff, 1, 3]); } 2 => { let n = ctx.rng.us(x.len() + 1); x.truncate(n); } _ => { let y = ctx.rng.next() as u8; x.push(y); } } }
        if ctx.rng.coin() && !x.is_empty() { x[0] = ctx.rng.below(5) as u8; }
        at(format!("bytes {}", hx(&x)));
        match guard(|| StorageFlags::deserialize(&x)) {
            Err(p) => fail!("decoding {} panics: {p}", hx(&x)),
            Ok(Ok(None)) => chk!(x.is_empty(), "{} decodes to no flags", hx(&x)),
            Ok(Ok(Some(g))) => {
                chk!(!x.is_empty() && x[0] == g.type_byte(), "{} decodes to {g:?}", hx(&x));
                let (gb, gm, go) = parts(&g);
                let off = if let Some(o) = go { chk!(x[1..33] == o, "owner of {}", hx(&x)); 33 } else { 1 };
                chk!(x.len() >= off + 2 && x[off..off + 2] == gb.to_be_bytes(), "base epoch of {}", hx(&x));
                match gm { None => chk!(x.len() == off + 2, "trailing bytes accepted: {}", hx(&x)), Some(m) => {
                    chk!(!m.is_empty(), "empty epoch map from {}", hx(&x));
                    let h = guard(|| StorageFlags::deserialize(&g.serialize()));
                    chk!(matches!(h, Ok(Ok(Some(ref h))) if *h == g), "{} decodes to {g:?}, which reads back as {h:?}", hx(&x));
                } }
                ctx.case(hx(&x), true);
            }
            Ok(Err(_)) => { chk!(x != b, "valid bytes {} refused", hx(&x)); ctx.case(hx(&x), false); }
        }
        let (d, so) = (StorageFlags::deserialize_single_epoch(&x).is_ok(), StorageFlags::deserialize_single_epoch_owned(&x).is_ok());
        chk!(d == (x.len() == 3) && so == (x.len() == 35), "single epoch length check on {} bytes", x.len());
        let _ = (StorageFlags::deserialize_multi_epoch(&x), StorageFlags::deserialize_multi_epoch_owned(&x));
    }
    Ok(())
}
// ---- model of combination ---------------------------------------------------
fn owners(a: &StorageFlags, b: &StorageFlags, s: S) -> Result<Option<[u8; 32]>, ()> {
    match (parts(a).2, parts(b).2) {
        (Some(x), Some(y)) if x != y => match s { S::RaiseIssue => Err(()), S::UseOurs => Ok(Some(x)), S::UseTheirs => Ok(Some(y)) },
        (x, y) => Ok(x.or(y)),
    }
}
fn union(a: &StorageFlags, b: &StorageFlags) -> Option<M> {
    match (parts(a).1, parts(b).1) { (Some(mut x), Some(y)) => { x.extend(y); Some(x) } (x, y) => x.or(y) }
}
fn m_added(a: &StorageFlags, b: &StorageFlags, n: u32, s: S) -> Result<StorageFlags, ()> {
    let (x, y) = (*a.base_epoch(), *b.base_epoch());
    if x > y { return Err(()); }
    let o = owners(a, b, s)?;
    let mut m = union(a, b);
    if x < y {
        let mut k = m.unwrap_or_default();
        let e = k.entry(y).or_insert(0);
        *e = e.checked_add(n).ok_or(())?;
        m = Some(k);
    }
    Ok(make(x, m, o))
}
fn m_removed(a: &StorageFlags, b: &StorageFlags, rem: &StorageRemovedBytes, s: S) -> Result<StorageFlags, ()> {
    let (x, y) = (*a.base_epoch(), *b.base_epoch());
    if x > y { return Err(()); }
    if x == y { return m_added(a, b, 0, s); }
    if parts(a).1.is_none() { return Ok(a.clone()); }
    let o = owners(a, b, s)?;
    let mut m = union(a, b).unwrap_or_default();
    if let SectionedStorageRemoval(sec) = rem {
        if sec.len() > 1 { return Err(()); }
        let im = sec.get(&parts(a).2.unwrap_or_default()).ok_or(())?;
        for (e, n) in im.iter() {
            if e == x { continue; }
            let have = *m.get(&e).ok_or(())?;
            let left = have.checked_sub(*n).ok_or(())?;
            if left <= MIN { m.remove(&e); } else { m.insert(e, left); }
        }
    }
    Ok(make(x, (!m.is_empty()).then_some(m), o))
}
fn second(r: &mut Rng, a: &StorageFlags) -> StorageFlags {
    let base = *a.base_epoch();
    let nb = match r.below(6) { 0 => epoch(r), 1 => base, _ => base.saturating_add(r.below(7) as u16) };
    let o = match r.below(4) { 0 => None, 1 => Some(owner(r)), _ => parts(a).2 };
    let m = if r.chance(1, 5) {
        // epochs also recorded by `a` carry the same amount
        let am = parts(a).1.unwrap_or_default();
        let mut m = M::new();
        for _ in 0..1 + r.below(3) { let e = nb.saturating_add(1 + r.below(9) as u16); let v = amount(r); m.insert(e, *am.get(&e).unwrap_or(&v)); }
        Some(m)
    } else { None };
    make(nb, m, o)
}
fn removal(r: &mut Rng, a: &StorageFlags) -> StorageRemovedBytes {
    match r.below(7) {
        0 => NoStorageRemoval,
        1 => BasicStorageRemoval(amount(r)),
        _ => {
            let (b, m, o) = parts(a);
            let mut sec = BTreeMap::new();
            let mut im: IntMap<u16, u32> = IntMap::new();
            for (e, n) in m.unwrap_or_default() { if r.chance(2, 3) {
                let v = match r.below(6) { 0 => n, 1 => n.saturating_sub(3), 2 => n.saturating_sub(4), 3 => n.saturating_add(1), _ => r.below(n as u64 + 1) as u32 };
                im.insert(e, v); } }
            if r.coin() { im.insert(b, amount(r)); }
            if r.chance(1, 8) { im.insert(epoch(r), amount(r)); }
            let id = if r.chance(1, 8) { owner(r) } else { o.unwrap_or_default() };
            if !r.chance(1, 20) { sec.insert(id, im); }
            if r.chance(1, 10) { let mut x = IntMap::new(); x.insert(epoch(r), 5); sec.insert(owner(r), x); }
            SectionedStorageRemoval(sec)
        }
    }
}
const ST: [S; 3] = [S::RaiseIssue, S::UseOurs, S::UseTheirs];
fn c13(ctx: &mut Ctx) -> R {
    ctx.rule("random pairs of flags, added amounts, removal records and owner strategies against an independent model of the combination, and whole flag updates for every size transition; non-trivial: the combination succeeds");
    for _ in 0..ctx.n(150_000) {
        let a = flags(&mut ctx.rng);
        let b = second(&mut ctx.rng, &a);
        let n = amount(&mut ctx.rng);
        let s = *ctx.rng.pick(&ST);
        at(format!("{a:?} + {n} bytes with {b:?}, {s:?}"));
        let want = m_added(&a, &b, n, s);
        for got in [a.clone().combine_added_bytes(b.clone(), n, s), StorageFlags::optional_combine_added_bytes(Some(a.clone()), b.clone(), n, s)] {
            match (&got, &want) { (Ok(x), Ok(y)) if x == y => {} (Err(_), Err(())) => {} _ => fail!("{a:?} adding {n} bytes with {b:?} under {s:?}: {got:?}, expected {want:?}") }
        }
        chk!(matches!(StorageFlags::optional_combine_added_bytes(None, b.clone(), n, s), Ok(x) if x == b), "no previous flags");
        ctx.case(format!("{a:?}{b:?}{n}{s:?}"), want.is_ok());
        let rem = removal(&mut ctx.rng, &a);
        at(format!("{a:?} - {rem:?} with {b:?}, {s:?}"));
        let wr = m_removed(&a, &b, &rem, s);
        for got in [a.clone().combine_removed_bytes(b.clone(), &rem, s), StorageFlags::optional_combine_removed_bytes(Some(a.clone()), b.clone(), &rem, s)] {
            match (&got, &wr) { (Ok(x), Ok(y)) if x == y => {} (Err(_), Err(())) => {} _ => fail!("{a:?} removing {rem:?} with {b:?} under {s:?}: {got:?}, expected {wr:?}") }
        }
        chk!(matches!(StorageFlags::optional_combine_removed_bytes(None, b.clone(), &rem, s), Ok(x) if x == b), "no previous flags");
        ctx.case(format!("{a:?}{b:?}{rem:?}{s:?}"), wr.is_ok());
        // whole updates
        let cost = StorageCost { added_bytes: if ctx.rng.coin() { n } else { 0 }, replaced_bytes: if ctx.rng.coin() { 1 + ctx.rng.below(100) as u32 } else { 0 }, removed_bytes: if ctx.rng.coin() { rem.clone() } else { NoStorageRemoval } };
        let has_rem = match &cost.removed_bytes { NoStorageRemoval => false, BasicStorageRemoval(n) => *n != 0, SectionedStorageRemoval(m) => m.values().any(|i| i.values().any(|v| *v != 0)) };
        at(format!("update {a:?} to {b:?} at {cost:?}"));
        let mut new = b.serialize();
        let got = StorageFlags::update_element_flags(&cost, Some(a.serialize()), &mut new);
        let want: Result<Option<StorageFlags>, ()> = match (cost.added_bytes > 0, has_rem, cost.replaced_bytes > 0) {
            (true, false, true) => m_added(&a, &b, cost.added_bytes, S::UseTheirs).map(Some),
            (false, true, true) => m_removed(&a, &b, &cost.removed_bytes, S::UseTheirs).map(Some),
            (false, false, true) => Ok(Some(a.clone())),
            _ => Ok(None),
        };
        match (&got, &want) {
            (Err(_), Err(())) => chk!(new == b.serialize(), "a failed update changed the flags"),
            (Ok(changed), Ok(None)) => chk!(!changed && new == b.serialize(), "update {a:?} to {b:?} at {cost:?} changed the flags to {}", hx(&new)),
            (Ok(changed), Ok(Some(f))) => {
                chk!(new == f.serialize(), "update {a:?} to {b:?} at {cost:?} gives {:?}, expected {f:?}", StorageFlags::deserialize(&new));
                chk!(*changed || new == b.serialize(), "update {a:?} to {b:?} at {cost:?} reports no change");
            }
            _ => fail!("update {a:?} to {b:?} at {cost:?}: {got:?}, expected {want:?}"),
        }
        let mut new = b.serialize();
        chk!(matches!(StorageFlags::update_element_flags(&cost, None, &mut new), Ok(false)) && new == b.serialize(), "update without old flags");
        let mut e = vec![];
        chk!(StorageFlags::update_element_flags(&cost, Some(a.serialize()), &mut e).is_err() && e.is_empty(), "dropping the flags of an element with flags was accepted");
    }
    // owner setting
    for _ in 0..2000 { let f = flags(&mut ctx.rng); let o = owner(&mut ctx.rng); let mut g = f.clone(); g.set_owner_id(o); let (b, m, p) = parts(&f); chk!(g == make(b, m, p.map(|_| o)), "set_owner_id on {f:?}"); }
    Ok(())
}
fn c14(ctx: &mut Ctx) -> R {
    ctx.rule("random flags and requested key/value removals (zero, exact totals, boundary values) against newest-first reference accounting; non-trivial: more than one epoch is charged");
    for _ in 0..ctx.n(200_000) {
        let f = flags(&mut ctx.rng);
        let (base, m, o) = parts(&f);
        let m = m.unwrap_or_default();
        let tot: u64 = m.values().map(|v| v.saturating_sub(MIN) as u64).sum();
        let k = if ctx.rng.coin() { 0 } else { amount(&mut ctx.rng) };
        let v = match ctx.rng.below(6) { 0 => tot.min(u32::MAX as u64) as u32, 1 => (tot + 1).min(u32::MAX as u64) as u32, 2 => m.values().last().map(|x| (*x).saturating_sub(ctx.rng.below(5) as u32)).unwrap_or(0), 3 => 0, _ => amount(&mut ctx.rng) };
        at(format!("{f:?} split {k} key, {v} value"));
        let (kr, vr) = match guard(|| f.split_storage_removed_bytes(k, v)) { Ok(x) => x, Err(p) => fail!("{f:?} split {k} key, {v} value panics: {p}") };
        let id = o.unwrap_or_default();
        let flat = |r: &StorageRemovedBytes, n: u32| -> Result<M, Fail> {
            match r {
                NoStorageRemoval => Ok(M::new()),
                SectionedStorageRemoval(s) => {
                    chk!(s.len() == 1 && s.contains_key(&id), "{f:?} removing {n}: charged to {s:?}, owner {id:?}");
                    Ok(s[&id].iter().filter(|x| *x.1 != 0).map(|(e, n)| (e, *n)).collect())
                }
                _ => fail!("{f:?} removing {n}: unattributed {r:?}"),
            }
        };
        let mut want_k = M::new();
        if k > 0 { want_k.insert(base, k); }
        chk!(flat(&kr, k)? == want_k, "{f:?} split {k} key bytes: {kr:?}");
        let mut left = v;
        let mut want = M::new();
        for (e, n) in m.iter().rev() { let t = left.min(n.saturating_sub(MIN)); if t > 0 { want.insert(*e, t); } left -= t; }
        if left > 0 { want.insert(base, left); }
        chk!(flat(&vr, v)? == want, "{f:?} split {v} value bytes: {vr:?}, expected {want:?}");
        chk!(kr.total_removed_bytes() == k && vr.total_removed_bytes() == v, "{f:?} split {k}/{v}: totals {} {}", kr.total_removed_bytes(), vr.total_removed_bytes());
        ctx.case(format!("{f:?}{k} {v}"), want.len() > 1);
        let mut bytes = f.serialize();
        let (a, b) = match StorageFlags::split_removal_bytes(&mut bytes, k, v) { Ok(x) => x, Err(e) => fail!("{f:?}: {e}") };
        chk!(a == kr && b == vr && bytes == f.serialize(), "split_removal_bytes differs for {f:?} {k} {v}");
        chk!(matches!(StorageFlags::split_removal_bytes(&mut vec![], k, v), Ok((BasicStorageRemoval(a), BasicStorageRemoval(b))) if a == k && b == v), "split without flags");
    }
    Ok(())
}
fn main() { main_with(&[("C12", c12), ("C13", c13), ("C14", c14)]) }
